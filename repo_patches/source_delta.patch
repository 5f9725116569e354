From df16d631c8fe6f1c772b386db0575a6b1e017978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 01/78] fix: amounts beyond int64 (large values, many decimals)
 were silently corrupted on load

---
 loader/lexer.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 9348205..a8cdca1 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -146,14 +146,15 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
-	var num int64 = 0
-	var mag int64 = 1
+	num := new(big.Int)
+	mag := big.NewInt(1)
+	ten := big.NewInt(10)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
-			num *= 10
-			num += int64(rr.ch - '0')
+			num.Mul(num, ten)
+			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
-				mag *= 10
+				mag.Mul(mag, ten)
 			}
 			rr.next()
 			continue
@@ -172,8 +173,8 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	if isNeg {
-		num *= -1
+		num.Neg(num)
 	}
 
-	return big.NewRat(num, mag)
+	return new(big.Rat).SetFrac(num, mag)
 }
-- 
2.43.0


From 06b0694095385a072c0d4b329fddbd0caf9a059c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 02/78] fix: posting amount without a currency was silently
 replaced by the elided amount

---
 loader/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/loader/parser.go b/loader/parser.go
index 37158bb..0a4264d 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -323,8 +323,10 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	}
 
 	if ccy == "" {
-		// ASSERT: dec should be 0
 		var ZERO big.Int
+		if dec.Num().Cmp(&ZERO) != 0 {
+			rr.stop("expected currency for amount %s", dec.RatString())
+		}
 		for ccy, dec := range loader.GetLastCCYBals() {
 			if dec.Num().Cmp(&ZERO) != 0 {
 				var x big.Rat
-- 
2.43.0


From 2fc8964782a40581e303eb7425ad10f9fce3ca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 03/78] fix: currency without an amount was silently read as a
 zero amount

---
 loader/lexer.go  | 11 +++++++++--
 loader/parser.go | 13 +++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index a8cdca1..ef20b50 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -136,7 +136,8 @@ func (rr *basicReader) parseQuotedString() string {
 	return buf.String()
 }
 
-func (rr *basicReader) parseAmt() *big.Rat {
+// Parse an amount. Returns false if there are no digits.
+func (rr *basicReader) parseAmt() (*big.Rat, bool) {
 	_ = rr.consumeWS()
 
 	isNeg := false
@@ -146,11 +147,13 @@ func (rr *basicReader) parseAmt() *big.Rat {
 	}
 
 	isDec := false
+	hasDigit := false
 	num := new(big.Int)
 	mag := big.NewInt(1)
 	ten := big.NewInt(10)
 	for {
 		if rr.ch >= '0' && rr.ch <= '9' {
+			hasDigit = true
 			num.Mul(num, ten)
 			num.Add(num, big.NewInt(int64(rr.ch-'0')))
 			if isDec {
@@ -176,5 +179,9 @@ func (rr *basicReader) parseAmt() *big.Rat {
 		num.Neg(num)
 	}
 
-	return new(big.Rat).SetFrac(num, mag)
+	if !hasDigit && (isNeg || isDec) {
+		rr.stop("expected digits in amount, got '%c'", rr.ch)
+	}
+
+	return new(big.Rat).SetFrac(num, mag), hasDigit
 }
diff --git a/loader/parser.go b/loader/parser.go
index 0a4264d..7bb7846 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -132,11 +132,17 @@ func IsCCYRune(c rune) bool {
 func (rr *basicReader) parseCCYAmt() (string, *big.Rat) {
 	if rr.ch == '"' || IsCCYRune(rr.ch) {
 		ccy := rr.parseCCY()
-		amt := rr.parseAmt()
+		amt, ok := rr.parseAmt()
+		if !ok {
+			rr.stop("expected amount for currency %s, got '%c'", ccy, rr.ch)
+		}
 		return ccy, amt
 	} else {
-		amt := rr.parseAmt()
+		amt, ok := rr.parseAmt()
 		ccy := rr.parseCCY()
+		if !ok && ccy != "" {
+			rr.stop("expected amount for currency %s", ccy)
+		}
 		return ccy, amt
 	}
 }
@@ -323,6 +329,9 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 	}
 
 	if ccy == "" {
+		if isNeg {
+			rr.stop("expected amount after '-', got '%c'", rr.ch)
+		}
 		var ZERO big.Int
 		if dec.Num().Cmp(&ZERO) != 0 {
 			rr.stop("expected currency for amount %s", dec.RatString())
-- 
2.43.0


From fce5cf684c256382dee25a6a2a091d906288aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:55 +0000
Subject: [PATCH 04/78] fix: impossible calendar dates were accepted and
 crashed or corrupted later date arithmetic

---
 book/date.go    | 25 ++++++++++++++++++-------
 loader/lexer.go |  3 +++
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/book/date.go b/book/date.go
index 5aa2bd0..70c75cb 100644
--- a/book/date.go
+++ b/book/date.go
@@ -11,6 +11,18 @@ import (
 // Date is a simple calendar date YYYYMMDD representated as an integer
 type Date int
 
+// Check that it is a real calendar date
+func (date Date) IsValid() bool {
+	year, month, day := int(date/10000), int(date/100)%100, int(date%100)
+	if year < 1 || month < 1 || month > 12 || day < 1 {
+		return false
+	}
+	if month == 2 && YearIsLeapYear(year-1) {
+		return day <= 29
+	}
+	return day <= monthDays[month-1]
+}
+
 // Return the year as a string
 func (date Date) GetYear() string {
 	return fmt.Sprintf("%04d", int(date/10000))
@@ -101,7 +113,9 @@ func DateFromString(date string) Date {
 		if day == 0 {
 			day = 1
 		}
-		return Date(year*10000 + month*100 + day)
+		if d := GetDate(year, month, day); d.IsValid() {
+			return d
+		}
 	}
 
 	mat = dateDDMMYYYY.FindStringSubmatch(date)
@@ -109,7 +123,9 @@ func DateFromString(date string) Date {
 		day, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
 		year, _ := strconv.Atoi(mat[3])
-		return Date(year*10000 + month*100 + day)
+		if d := GetDate(year, month, day); d.IsValid() {
+			return d
+		}
 	}
 
 	mat = date_desc_re.FindStringSubmatch(date)
@@ -133,11 +149,6 @@ func DateFromString(date string) Date {
 		return d
 	}
 
-	i, err := strconv.Atoi(date)
-	if err == nil {
-		return Date(i)
-	}
-
 	return 0
 }
 
diff --git a/loader/lexer.go b/loader/lexer.go
index ef20b50..67bc1a8 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -75,6 +75,9 @@ func (rr *basicReader) parseDate() book.Date {
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
 	rr.consume('/')
 	date = (date * 100) + rr.parseNumber(&date, 1, 2)
+	if !book.Date(date).IsValid() {
+		rr.stop("invalid date %s", book.Date(date))
+	}
 	return book.Date(date)
 }
 
-- 
2.43.0


From 1a77890c2c3a3edcfc36eb3c8ae600d9cdb0ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:16 +0000
Subject: [PATCH 05/78] fix: a month or day of zero in a date string was read
 as the first

---
 book/date.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/book/date.go b/book/date.go
index 70c75cb..9ab24c0 100644
--- a/book/date.go
+++ b/book/date.go
@@ -106,11 +106,11 @@ func DateFromString(date string) Date {
 	if mat != nil {
 		year, _ := strconv.Atoi(mat[1])
 		month, _ := strconv.Atoi(mat[2])
-		if month == 0 {
+		if mat[2] == "" && mat[3] == "" {
 			month = 1
 		}
 		day, _ := strconv.Atoi(mat[3])
-		if day == 0 {
+		if mat[3] == "" {
 			day = 1
 		}
 		if d := GetDate(year, month, day); d.IsValid() {
-- 
2.43.0


From 122cde723b74b6e03036c1231ac445283e887c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 06/78] fix: a NUL byte ended the ledger silently and a missing
 or unreadable file killed the process

---
 loader/lexer.go  | 7 ++++---
 loader/parser.go | 3 +--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 67bc1a8..5118d8b 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -6,7 +6,6 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"io"
-	"log"
 	"math/big"
 	"unicode"
 )
@@ -18,7 +17,7 @@ type basicReader struct {
 	col    int
 }
 
-const eof = rune(0)
+const eof = rune(-1)
 const eol = rune('\n')
 
 func newRuneReader(r *bufio.Reader) *basicReader {
@@ -113,7 +112,9 @@ func (rr *basicReader) next() rune {
 	if err == io.EOF {
 		r = eof
 	} else if err != nil {
-		log.Fatal(err)
+		rr.stop("%v", err)
+	} else if r == 0 {
+		rr.stop("unexpected NUL byte")
 	}
 	rr.ch = r
 	if rr.ch == eol {
diff --git a/loader/parser.go b/loader/parser.go
index 7bb7846..5e736c9 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"github.com/mescanne/goledger/book"
-	"log"
 	"math/big"
 	"os"
 	"path/filepath"
@@ -209,7 +208,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 
 	file, err := os.Open(filename)
 	if err != nil {
-		log.Fatal(err)
+		return err
 	}
 	defer file.Close()
 
-- 
2.43.0


From 8a28f2f3d1b31ba105abcd854d92545399e4ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:46 +0000
Subject: [PATCH 07/78] fix: unparsed text at the end of a line was skipped or
 read as a new directive

---
 loader/parser.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 5e736c9..b577633 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -70,9 +70,7 @@ func (rr *basicReader) parseTransaction() (book.Date, string, string) {
 	}
 	payee := rr.parsePayee()
 	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
-	}
+	rr.consumeEOL()
 	return date, payee, note
 }
 
@@ -162,6 +160,16 @@ func (rr *basicReader) parseCCY() string {
 	return buf.String()
 }
 
+func (rr *basicReader) consumeEOL() {
+	_ = rr.consumeWS()
+	if rr.ch != eol && rr.ch != eof {
+		rr.stop("expected end of line, got '%c'", rr.ch)
+	}
+	if rr.ch == eol {
+		rr.next()
+	}
+}
+
 func (rr *basicReader) skipLine() {
 	var buf bytes.Buffer
 	for rr.ch != eof && rr.ch != eol {
@@ -186,10 +194,9 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	unit := rr.parseCCY()
 	_ = rr.consumeWS()
 	ccy, amt := rr.parseCCYAmt()
+	_ = rr.parseNote()
+	rr.consumeEOL()
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
-	if rr.ch == eol {
-		rr.next()
-	}
 }
 
 // Parse a ledger formatted file (see https://www.ledger-cli.org/) and
@@ -322,10 +329,12 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		_ = rr.consumeWS()
 		_, _ = rr.parseCCYAmt()
 	}
-	note := rr.parseNote()
-	if rr.ch == eol {
-		rr.next()
+	// Balance assertions are ignored for now
+	if rr.ch == '=' {
+		rr.parseToEOL()
 	}
+	note := rr.parseNote()
+	rr.consumeEOL()
 
 	if ccy == "" {
 		if isNeg {
-- 
2.43.0


From dd0fb64f1683c3c25e0cc7b4d13b43b4cef3373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 08/78] fix: a posting without an account and text after an
 alias were accepted silently

---
 loader/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/loader/parser.go b/loader/parser.go
index b577633..f5c0bd7 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -291,7 +291,8 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				if longAcct == "" {
 					rr.stop("expected account for alias, got empty account")
 				}
-				rr.parseToEOL()
+				_ = rr.parseNote()
+				rr.consumeEOL()
 				nmap[shortAcct] = longAcct
 			} else {
 				rr.stop("expected include or alias")
@@ -309,6 +310,9 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]string) {
 	_ = rr.consumeWS()
 	acct := rr.parseAccount()
+	if acct == "" {
+		rr.stop("expected account, got '%c'", rr.ch)
+	}
 	nacct, ok := alias[acct]
 	if ok {
 		acct = nacct
-- 
2.43.0


From ddc105cf93f1d14709cf2d7cb7c643d518a3be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 09/78] fix: trailing whitespace (CRLF files) ended up in notes
 and include file names

---
 loader/parser.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index f5c0bd7..34ea99c 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -58,7 +58,7 @@ func (rr *basicReader) parseNote() string {
 		buf.WriteRune(rr.ch)
 		rr.next()
 	}
-	return buf.String()
+	return strings.TrimSpace(buf.String())
 }
 
 func (rr *basicReader) parseTransaction() (book.Date, string, string) {
@@ -83,7 +83,7 @@ func (rr *basicReader) parseToEOL() string {
 		rr.next()
 	}
 
-	return buf.String()
+	return strings.TrimSpace(buf.String())
 }
 
 func (rr *basicReader) parseAccount() string {
@@ -271,7 +271,10 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 			// If it's include
 			if command == "INCLUDE" {
 				ifile := rr.parseToEOL()
-				if ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
+				if ifile == "" {
+					rr.stop("expected file for include")
+				}
+				if len(ifile) > 1 && ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
 					ifile = ifile[1 : len(ifile)-1]
 				}
 				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap)
-- 
2.43.0


From 79e3bdfc2ebc8ee2b879e780e898af9735cddb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 10/78] fix: a circular include recursed until the process died

---
 loader/parser.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 34ea99c..e704851 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -207,10 +207,10 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 //
 // reterr returns the parsing error or nil if everything loaded.
 func ParseFile(loader TransactionLoader, filename string) (reterr error) {
-	return parseFileLocal(loader, filename, nil)
+	return parseFileLocal(loader, filename, nil, nil)
 }
 
-func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string) (reterr error) {
+func parseFileLocal(loader TransactionLoader, filename string, alias map[string]string, parents []os.FileInfo) (reterr error) {
 	reterr = nil
 
 	file, err := os.Open(filename)
@@ -219,6 +219,18 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 	}
 	defer file.Close()
 
+	// A file can't include itself, directly or indirectly
+	info, err := file.Stat()
+	if err != nil {
+		return err
+	}
+	for _, parent := range parents {
+		if os.SameFile(parent, info) {
+			return fmt.Errorf("parsing failure: %s: circular include", filename)
+		}
+	}
+	parents = append(parents[:len(parents):len(parents)], info)
+
 	defer func() {
 		if msg := recover(); msg != nil {
 			reterr = fmt.Errorf("parsing failure: %s: %s", filename, msg)
@@ -277,7 +289,7 @@ func parseFileLocal(loader TransactionLoader, filename string, alias map[string]
 				if len(ifile) > 1 && ifile[0] == '"' && ifile[len(ifile)-1] == '"' {
 					ifile = ifile[1 : len(ifile)-1]
 				}
-				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap)
+				err := parseFileLocal(loader, filepath.Join(filepath.Dir(filename), ifile), nmap, parents)
 				if err != nil {
 					return err
 				}
-- 
2.43.0


From bc927e237e2f28034960455be73808a6b58beae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 11/78] fix: an unbalanced last transaction crashed instead of
 reporting an error

---
 book/builder.go |  4 ++++
 cmd/app/app.go  | 13 ++++++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 6d73cf4..e9ae145 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -105,6 +105,10 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 }
 
 func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string) {
+	if b.currDate == Date(-1) {
+		panic("posting outside of a transaction")
+	}
+
 	b.post = append(b.post, Posting{
 		date:  b.currDate,
 		payee: b.currPayee,
diff --git a/cmd/app/app.go b/cmd/app/app.go
index 48e2138..b68b17d 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -56,13 +56,20 @@ func init() {
 }
 
 // Load a book from the configured ledger file
-func (app *App) LoadBook() (*book.Book, error) {
+func (app *App) LoadBook() (b *book.Book, err error) {
+
+	// The last transaction is checked on building the book
+	defer func() {
+		if msg := recover(); msg != nil {
+			b, err = nil, fmt.Errorf("loading failure: %s: %v", app.Ledger, msg)
+		}
+	}()
+
 	bbuilder := book.NewBookBuilder()
 	if err := loader.ParseFile(bbuilder, app.Ledger); err != nil {
 		return nil, err
 	}
-	b := bbuilder.Build()
-	return b, nil
+	return bbuilder.Build(), nil
 }
 
 const version = "0.1"
-- 
2.43.0


From 952d02a4b3b4ee04453eb218c1ddbeeb4a4f8094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 12/78] fix: too few decimals for currencies with amounts such
 as .25 and .125 (rounded in reports and exports)

---
 book/builder.go | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index e9ae145..497b437 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -15,30 +15,36 @@ type Builder struct {
 	prices    *priceBookBuilder
 }
 
-func (b *Builder) Build() *Book {
-	b.checkAndClearTransaction()
-
-	// Get the largest denominators by currency
-	mmap := make(map[string]*big.Int)
-	for _, p := range b.post {
-		eval, ok := mmap[p.GetCCY()]
-		if !ok || eval.Cmp(p.GetAmount().Denom()) < 0 {
-			mmap[p.GetCCY()] = p.GetAmount().Denom()
+// Decimals returns the smallest number of decimals that represents the amount
+// exactly and true or, if there is none (e.g. for a third), the number of digits
+// of the denominator and false.
+func Decimals(amt *big.Rat) (int, bool) {
+	var rem big.Int
+	ten := big.NewInt(10)
+	p := big.NewInt(1)
+	digits := 0
+	for c := 0; c <= amt.Denom().BitLen(); c++ {
+		if rem.Rem(p, amt.Denom()).Sign() == 0 {
+			return c, true
+		}
+		if p.Cmp(amt.Denom()) < 0 {
+			digits = c + 1
 		}
+		p.Mul(p, ten)
 	}
+	return digits, false
+}
+
+func (b *Builder) Build() *Book {
+	b.checkAndClearTransaction()
 
-	// Convert to number of decimals
+	// Get the number of decimals needed by currency
 	rmap := make(map[string]int)
-	ten := big.NewInt(10)
-	for k, v := range mmap {
-		p := big.NewInt(1)
-		c := 0
-		// for as long as Denom is bigger keep doing p = p * 10
-		for p.Cmp(v) < 0 {
-			p.Mul(p, ten)
-			c += 1
+	for _, p := range b.post {
+		c, _ := Decimals(p.GetAmount())
+		if eval, ok := rmap[p.GetCCY()]; !ok || eval < c {
+			rmap[p.GetCCY()] = c
 		}
-		rmap[k] = c
 	}
 
 	nbook := &Book{
-- 
2.43.0


From 4a5f655b7da360c8c996276a51aaa6cef2e0121d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 13/78] fix: Text and HTML reports without --sum showed empty
 account names

---
 book/builder.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/book/builder.go b/book/builder.go
index 497b437..5d4355c 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -116,14 +116,15 @@ func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string)
 	}
 
 	b.post = append(b.post, Posting{
-		date:  b.currDate,
-		payee: b.currPayee,
-		tnote: b.currNote,
-		acct:  acct,
-		ccy:   ccy,
-		val:   amt,
-		note:  note,
-		bal:   big.NewRat(0, 1),
+		date:     b.currDate,
+		payee:    b.currPayee,
+		tnote:    b.currNote,
+		acct:     acct,
+		ccy:      ccy,
+		val:      amt,
+		note:     note,
+		bal:      big.NewRat(0, 1),
+		acctterm: acct,
 	})
 
 	v, ok := b.currAmts[ccy]
-- 
2.43.0


From ec9f19fedd6244162a20a9d4926d17cdc9ccf538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 14/78] fix: JSON postings carried the transaction note instead
 of their own

---
 book/posting.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/posting.go b/book/posting.go
index d15fbb5..92390da 100644
--- a/book/posting.go
+++ b/book/posting.go
@@ -124,6 +124,6 @@ func (p Posting) MarshalJSON() ([]byte, error) {
 		Account: p.acct,
 		CCY:     p.ccy,
 		Amount:  amt,
-		Note:    p.tnote,
+		Note:    p.note,
 	})
 }
-- 
2.43.0


From 789613ff4a41878b572734a39a3683bc92013d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:27 +0000
Subject: [PATCH 15/78] fix: register base amounts used the inverse of the
 price

---
 book/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/registry.go b/book/registry.go
index 62fea97..8b8f028 100644
--- a/book/registry.go
+++ b/book/registry.go
@@ -130,7 +130,7 @@ func (b *Book) ExtractRegister(baseccy string, re *regexp.Regexp, split bool) Re
 					if r != nil {
 						baseSource = PriceTypeTrade
 					} else {
-						r, baseSource = b.GetPrice(trans.GetDate(), baseccy, p.GetCCY())
+						r, baseSource = b.GetPrice(trans.GetDate(), p.GetCCY(), baseccy)
 					}
 					baseAmt = big.NewRat(0, 1).Mul(r, camts[i])
 				}
-- 
2.43.0


From 05c1b42be9bcac39fe87a20884358453f4b0c3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 16/78] fix: register in descending order crashed on its
 missing second half

---
 cmd/register/show_register.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index f7e338f..87a1cbe 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -28,7 +28,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	// Reverse if requested
 	if !asc {
 		ndata := make([]*book.RegistryEntry, len(report), len(report))
-		for i := 0; i < len(report)/2; i++ {
+		for i := 0; i < len(report); i++ {
 			ndata[len(report)-i-1] = (report)[i]
 		}
 		report = ndata
-- 
2.43.0


From 11f88527846eb77e92fc828d33ac1acf876253d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:32 +0000
Subject: [PATCH 17/78] fix: register ignored invalid dates and took account
 names as regular expressions

---
 cmd/register/register.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index 649cd66..666fd77 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -65,6 +65,12 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 
 func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string) error {
 
+	for _, date := range []string{reg.BeginDate, reg.EndDate} {
+		if date != "" && book.DateFromString(date) == book.Date(0) {
+			return fmt.Errorf("invalid date '%s'", date)
+		}
+	}
+
 	// Load up saved flags
 	b, err := rapp.LoadBook()
 	if err != nil {
@@ -106,7 +112,7 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 
 	for _, acct := range b.Accounts(arg, !rapp.All) {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
-		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", acct))
+		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", regexp.QuoteMeta(acct)))
 		if err != nil {
 			return fmt.Errorf("failed compiling re for account '%s': %w", acct, err)
 		}
-- 
2.43.0


From dbb11cebee8ffadf4667d507fdcc8e342b348a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 18/78] fix: an invalid regular expression from the user
 crashed instead of reporting an error

---
 cmd/accounts/accounts.go |  5 +++++
 cmd/app/book_op.go       | 12 ++++++++++++
 cmd/register/register.go |  3 +++
 script/book_op.go        |  4 ++++
 4 files changed, 24 insertions(+)

diff --git a/cmd/accounts/accounts.go b/cmd/accounts/accounts.go
index 1712049..5c03d04 100644
--- a/cmd/accounts/accounts.go
+++ b/cmd/accounts/accounts.go
@@ -1,8 +1,10 @@
 package accounts
 
 import (
+	"fmt"
 	rapp "github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"regexp"
 )
 
 func Add(cmd *cobra.Command, app *rapp.App) {
@@ -28,6 +30,9 @@ func Add(cmd *cobra.Command, app *rapp.App) {
 		if len(args) == 1 {
 			regex = args[0]
 		}
+		if _, err := regexp.Compile(regex); err != nil {
+			return fmt.Errorf("invalid regex: '%s': %w", regex, err)
+		}
 
 		// Create printer
 		bp := app.NewBookPrinter(b.GetCCYDecimals())
diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 8ee9a44..cad638d 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -121,6 +121,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("mapccy operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("mapccy operation '%s', invalid: %v", op_act, err)
+		}
 		b.RegexCCY(args[1], args[2])
 		return nil
 	case "map=":
@@ -128,6 +131,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("map operation '%s', invalid: must be format '%s'", op_act, map_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("map operation '%s', invalid: %v", op_act, err)
+		}
 		b.RegexAccounts(args[1], args[2], args[4])
 		return nil
 	case "move=":
@@ -135,6 +141,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("move operation '%s', invalid: must be format '%s'", op_act, move_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("move operation '%s', invalid: %v", op_act, err)
+		}
 		factor, err := strconv.ParseFloat(args[3], 64)
 		if err != nil {
 			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
@@ -169,6 +178,9 @@ func (app *App) bookOp(b *book.Book, op string) error {
 		if args == nil {
 			return fmt.Errorf("depreciate operation '%s', invalid: must be format '%s'", op_act, deprec_op.String())
 		}
+		if _, err := regexp.Compile(args[1]); err != nil {
+			return fmt.Errorf("depreciate operation '%s', invalid: %v", op_act, err)
+		}
 		months, err := strconv.ParseInt(args[3], 10, 64)
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
diff --git a/cmd/register/register.go b/cmd/register/register.go
index 666fd77..ae56eb6 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -110,6 +110,9 @@ func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string)
 		return ShowReport(bp, rep, reg.Type, reg.Count, reg.Asc, true, true)
 	}
 
+	if _, err := regexp.Compile(arg); err != nil {
+		return fmt.Errorf("invalid regex: '%s': %w", arg, err)
+	}
 	for _, acct := range b.Accounts(arg, !rapp.All) {
 		bp.Printf("\n%s\n", bp.Ansi(app.BlueUL, acct))
 		acctRe, err := regexp.Compile(fmt.Sprintf("^%s$", regexp.QuoteMeta(acct)))
diff --git a/script/book_op.go b/script/book_op.go
index 0773809..75a96b5 100644
--- a/script/book_op.go
+++ b/script/book_op.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"go.starlark.net/starlark"
+	"regexp"
 )
 
 var mapf = starlark.NewBuiltin("map",
@@ -23,6 +24,9 @@ var mapf = starlark.NewBuiltin("map",
 		if !ok {
 			return starlark.None, fmt.Errorf("%w: %s", userError, "bound to not a book")
 		}
+		if _, err := regexp.Compile(from); err != nil {
+			return starlark.None, fmt.Errorf("invalid regex '%s': %v", from, err)
+		}
 		bb.b.RegexAccounts(from, to, alt)
 		return val, nil
 	})
-- 
2.43.0


From 4bf35ac8c2767dca84e37acc51c4b585afb05a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 19/78] fix: a recursive macro overflowed the stack

---
 cmd/app/book_op.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index cad638d..31d71d2 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -86,7 +86,7 @@ var deprec_op = regexp.MustCompile("^/([^/]+)/([^/]+)/([0-9\\.]+)/$")
 
 func (app *App) BookOps(b *book.Book, ops ...string) error {
 	for _, op := range ops {
-		if err := app.bookOp(b, op); err != nil {
+		if err := app.bookOp(b, op, nil); err != nil {
 			return fmt.Errorf("error applying operation '%s': %w", op, err)
 		}
 	}
@@ -94,13 +94,19 @@ func (app *App) BookOps(b *book.Book, ops ...string) error {
 	return nil
 }
 
-func (app *App) bookOp(b *book.Book, op string) error {
+func (app *App) bookOp(b *book.Book, op string, parents []string) error {
 	var err error
 
 	m, ok := app.Macros[op]
 	if ok {
+		for _, parent := range parents {
+			if parent == op {
+				return fmt.Errorf("macro '%s' is recursive", op)
+			}
+		}
+		parents = append(parents[:len(parents):len(parents)], op)
 		for _, macro := range m {
-			err = app.bookOp(b, macro)
+			err = app.bookOp(b, macro, parents)
 			if err != nil {
 				return fmt.Errorf("macro expansion '%s': %v", op, err)
 			}
-- 
2.43.0


From bd30485ae93451a747f548ed893d462f47bfd565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:04 +0000
Subject: [PATCH 20/78] fix: Text report crashed on an empty book, an account
 missing from a period and an empty currency

---
 cmd/app/print.go    |  3 +++
 cmd/reports/text.go | 14 ++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0c5feac..a813242 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -269,6 +269,9 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
+	if symbol == "" {
+		return symbol
+	}
 	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
 		return symbol + " "
 	}
diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index e9dc924..f2512a2 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -9,6 +9,11 @@ import (
 
 func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 
+	// Nothing to show
+	if len(trans) == 0 {
+		return nil
+	}
+
 	// Main transaction (reference one)
 	postingTrans := trans[len(trans)-1]
 
@@ -75,6 +80,15 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		}
 	}
 
+	// Accounts that are not in all of the transactions
+	for _, row := range rows {
+		for i := range row {
+			if row[i] == nil {
+				row[i] = app.ColumnString("")
+			}
+		}
+	}
+
 	b.PrintColumns(rows, fmts)
 
 	return nil
-- 
2.43.0


From 46d073a2616290b14d14f74b9ff038c869187ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 21/78] fix: converting through the inverse of a zero price
 crashed

---
 book/price.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/book/price.go b/book/price.go
index f853d42..d3523f5 100644
--- a/book/price.go
+++ b/book/price.go
@@ -190,6 +190,9 @@ func (p *priceBook) getPrice(date Date, unit string, ccy string) (*big.Rat, Pric
 	v, ok = p.data[PricePair{ccy, unit}]
 	if ok {
 		r, pt := v.GetPrice(date)
+		if r.Sign() == 0 {
+			return big.NewRat(1, 1), PriceTypeNone
+		}
 		return big.NewRat(0, 1).Inv(r), pt
 	}
 	return big.NewRat(1, 1), PriceTypeNone
-- 
2.43.0


From 6b2b8795fd008bad2453ed0306d98d347befb39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:33 +0000
Subject: [PATCH 22/78] fix: prices were exported in a different order on every
 run

---
 book/book.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/book/book.go b/book/book.go
index 036f9ac..478ef1d 100644
--- a/book/book.go
+++ b/book/book.go
@@ -36,6 +36,13 @@ func (b *Book) GetPricePairs() []PricePair {
 		pairs = append(pairs, pair)
 	}
 
+	sort.Slice(pairs, func(i, j int) bool {
+		if pairs[i].Unit != pairs[j].Unit {
+			return pairs[i].Unit < pairs[j].Unit
+		}
+		return pairs[i].CCY < pairs[j].CCY
+	})
+
 	return pairs
 }
 
-- 
2.43.0


From 64f0d1edf8709c6977d5c0528fd0942e217d9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 23/78] fix: mapccy lost prices of merged pairs, mapped some
 twice and kept the old currency's decimals

---
 book/book_utils.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/book/book_utils.go b/book/book_utils.go
index cbdc0a3..0d7fb50 100644
--- a/book/book_utils.go
+++ b/book/book_utils.go
@@ -39,21 +39,33 @@ func (b *Book) RegexCCY(search string, replace string) {
 		}
 	})
 
-	// Map the prices
-	for ccypair, pl := range b.prices.data {
-		newpair := ccypair
-		if re.MatchString(ccypair.Unit) {
-			newpair.Unit = re.ReplaceAllString(ccypair.Unit, replace)
+	// Map the prices, merging those that end up as the same pair
+	mapped := newPriceBookBuilder()
+	for _, pair := range b.GetPricePairs() {
+		newpair := pair
+		if re.MatchString(pair.Unit) {
+			newpair.Unit = re.ReplaceAllString(pair.Unit, replace)
 		}
-		if re.MatchString(ccypair.CCY) {
-			newpair.CCY = re.ReplaceAllString(ccypair.CCY, replace)
+		if re.MatchString(pair.CCY) {
+			newpair.CCY = re.ReplaceAllString(pair.CCY, replace)
 		}
-		if newpair.Unit == ccypair.Unit && newpair.CCY == ccypair.CCY {
-			continue
+		for _, p := range b.prices.data[pair] {
+			mapped.addPrice(p.date, newpair.Unit, newpair.CCY, p.val)
 		}
-		b.prices.data[newpair] = pl
-		delete(b.prices.data, ccypair)
 	}
+	b.prices = mapped.build()
+
+	// Map the decimals
+	ccys := make(map[string]int)
+	for ccy, dec := range b.ccy {
+		if re.MatchString(ccy) {
+			ccy = re.ReplaceAllString(ccy, replace)
+		}
+		if prev, ok := ccys[ccy]; !ok || prev < dec {
+			ccys[ccy] = dec
+		}
+	}
+	b.ccy = ccys
 }
 
 func (b *Book) FilterByDateSince(minDate Date) {
-- 
2.43.0


From 1b072846ba23191d1df915b5f1714e237fd63fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 24/78] fix: operations on a duplicate of a book changed the
 amounts and prices of the original

---
 book/book.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/book/book.go b/book/book.go
index 478ef1d..5df1299 100644
--- a/book/book.go
+++ b/book/book.go
@@ -53,9 +53,24 @@ func (b *Book) GetPriceList(unit string, ccy string) PriceList {
 func (b *Book) Duplicate() *Book {
 	newp := make([]Posting, len(b.post), len(b.post))
 	copy(newp, b.post)
-	newt := make([]Transaction, len(b.trans), len(b.trans))
-	copy(newt, b.trans)
-	return &Book{newp, newt, b.prices, b.ccy}
+	for i := range newp {
+		newp[i].val = new(big.Rat).Set(newp[i].val)
+		newp[i].bal = new(big.Rat).Set(newp[i].bal)
+	}
+
+	// The prices themselves never change
+	prices := &priceBook{data: make(map[PricePair]PriceList)}
+	for pair, pl := range b.prices.data {
+		prices.data[pair] = pl
+	}
+	ccy := make(map[string]int)
+	for k, v := range b.ccy {
+		ccy[k] = v
+	}
+
+	newb := &Book{newp, nil, prices, ccy}
+	newb.compact()
+	return newb
 }
 
 func (b *Book) GetCCYDecimals() map[string]int {
-- 
2.43.0


From 6eb025b97eb89100a9fe302828aa637799c39bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 25/78] fix: accounts were hidden when their last used currency
 had a zero balance

---
 book/book.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/book/book.go b/book/book.go
index 5df1299..08cf70d 100644
--- a/book/book.go
+++ b/book/book.go
@@ -217,20 +217,34 @@ func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float6
 }
 
 // Find all the accounts matching regular expression reg that have non-zero balances
-// TODO: This only applies where balance is already calculated!
+// in any currency
 func (b *Book) Accounts(reg string, onlyWithBalance bool) []string {
 	re := regexp.MustCompile(reg)
-	lbal := make(map[string]*big.Rat)
-	accts := make([]string, 0, 10)
+	lbal := make(map[string]map[string]*big.Rat)
 	for _, p := range b.post {
-		if re.MatchString(p.GetAccount()) {
-			lbal[p.GetAccount()] = p.GetBalance()
+		if !re.MatchString(p.GetAccount()) {
+			continue
+		}
+		bals, ok := lbal[p.GetAccount()]
+		if !ok {
+			bals = make(map[string]*big.Rat)
+			lbal[p.GetAccount()] = bals
+		}
+		bal, ok := bals[p.GetCCY()]
+		if !ok {
+			bal = new(big.Rat)
+			bals[p.GetCCY()] = bal
 		}
+		bal.Add(bal, p.GetAmount())
 	}
 
-	var zero big.Int
-	for acct, bal := range lbal {
-		if !onlyWithBalance || bal.Num().Cmp(&zero) != 0 {
+	accts := make([]string, 0, 10)
+	for acct, bals := range lbal {
+		show := !onlyWithBalance
+		for _, bal := range bals {
+			show = show || bal.Sign() != 0
+		}
+		if show {
 			accts = append(accts, acct)
 		}
 	}
-- 
2.43.0


From 7fd40b1a0a79bf7eaca5030be5630f8a5cb33976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 26/78] fix: move left binary rounding residue (0.1 of 10 was
 not exactly 1)

---
 book/book.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/book/book.go b/book/book.go
index 08cf70d..2b8ecba 100644
--- a/book/book.go
+++ b/book/book.go
@@ -5,6 +5,7 @@ import (
 	"math/big"
 	"regexp"
 	"sort"
+	"strconv"
 )
 
 /* Book of dated transactions (set of postings), currencies (units), and conversions
@@ -201,7 +202,10 @@ func (b *Book) Depreciate(search_acct string, replace_acct string, period string
 func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float64) {
 	re := regexp.MustCompile(search_acct)
 	var r, i big.Rat
-	r.SetFloat64(factor)
+	// Factor is decimal, not its binary approximation
+	if _, ok := r.SetString(strconv.FormatFloat(factor, 'g', -1, 64)); !ok {
+		panic(fmt.Sprintf("Invalid factor %v", factor))
+	}
 	i.Neg(&r)
 	newposts := b.post
 	for _, p := range b.post {
-- 
2.43.0


From 911167f290c0807f3e3def6e915a837a276abb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 27/78] fix: accumulating a book sorted added empty accounts
 into the book's own postings

---
 book/book_accum.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index e1270b6..acc4be4 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -170,7 +170,8 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 	// Only need some of compact functionality
 	b.compact()
 
-	posts := b.post
+	// Work on a copy -- the postings of the book itself must not be extended or re-ordered
+	posts := append([]Posting(nil), b.post...)
 
 	if len(posts) == 0 {
 		return b.Transactions()
-- 
2.43.0


From 36696d6eac506a7bd3eeb8db18c6faad5dc64bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:15 +0000
Subject: [PATCH 28/78] fix: summary rows with large or equal values were out
 of order and mixed, sub-accounts next to similar names lost their heading

---
 book/book_accum.go | 69 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index acc4be4..45626fb 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -21,33 +21,64 @@ func findMaxCommonPrefix(left string, right string, divider string) string {
 		}
 	}
 
-	if (i < len(left) && strings.HasPrefix(left[i:], divider)) ||
-		(i < len(right) && strings.HasPrefix(right[i:], divider)) ||
-		(i == len(left) && i == len(right)) {
+	if (i == len(left) || strings.HasPrefix(left[i:], divider)) &&
+		(i == len(right) || strings.HasPrefix(right[i:], divider)) {
 		prefix = i
 	}
 
 	return left[0:prefix]
 }
 
-func getSortOrder(a *big.Rat) string {
-	f, _ := a.Float64()
-	g := int64(f * 1000_000)
-	g = 1_000_000_000*1_000_000 - g
-	return fmt.Sprintf("%015x", g)
+// Rank of each value, larger values first. Equal values have the same rank.
+func getSortOrder(val map[string]*big.Rat) map[string]string {
+	accts := make([]string, 0, len(val))
+	for acct := range val {
+		accts = append(accts, acct)
+	}
+	sort.Slice(accts, func(i, j int) bool {
+		return val[accts[i]].Cmp(val[accts[j]]) > 0
+	})
+
+	order := make(map[string]string)
+	rank := 0
+	for i, acct := range accts {
+		if i > 0 && val[accts[i-1]].Cmp(val[acct]) != 0 {
+			rank = i
+		}
+		order[acct] = fmt.Sprintf("%09d", rank)
+	}
+	return order
 }
 
-func getSortOrderString(val map[string]*big.Rat, acct string, divider string) string {
-	o := make([]string, 0, 5)
+// Sort order of an account: order and name of each of the accounts containing it, so
+// that everything below an account follows it directly, even if its siblings have equal values.
+func getSortOrderString(order map[string]string, acct string, divider string) string {
+	o := make([]string, 0, 10)
 	for i := 1; i <= len(acct); i++ {
 		if i != len(acct) && !strings.HasPrefix(acct[i:], divider) {
 			continue
 		}
-		if v, ok := val[acct[:i]]; ok {
-			o = append(o, getSortOrder(v))
+		if v, ok := order[acct[:i]]; ok {
+			o = append(o, v, acct[:i])
 		}
 	}
-	return strings.Join(o, divider)
+	return strings.Join(o, "\x00")
+}
+
+// List of accounts, with all accounts below an account directly following it
+func getAccountTree(posts []Posting, divider string) []string {
+	seen := make(map[string]bool)
+	accts := make([]string, 0, len(posts))
+	for _, p := range posts {
+		if !seen[p.GetAccount()] {
+			seen[p.GetAccount()] = true
+			accts = append(accts, p.GetAccount())
+		}
+	}
+	sort.Slice(accts, func(i, j int) bool {
+		return strings.ReplaceAll(accts[i], divider, "\x00") < strings.ReplaceAll(accts[j], divider, "\x00")
+	})
+	return accts
 }
 
 func splitByStrings(prefixes map[string]bool, acct string, includeSelf bool, divider string) (int, string) {
@@ -208,6 +239,11 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 				(posts[i-1].GetAccount() == key || p.GetAccount() == key) {
 				fmt.Fprintf(os.Stderr, "WARNING: account '%s' (%s) and '%s' (%s) both have balances\n", p.GetAccount(), p.GetCCY(), posts[i-1].GetAccount(), posts[i-1].GetCCY())
 			}
+		}
+	}
+	accts := getAccountTree(posts, divider)
+	for i := 1; i < len(accts); i++ {
+		if key := findMaxCommonPrefix(accts[i-1], accts[i], divider); key != "" {
 			accum[key] = true
 		}
 	}
@@ -240,10 +276,13 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 				acctval[k] = v
 			}
 
+			// Order of the accounts by value
+			order := getSortOrder(acctval)
+
 			// Assign level to normal postings
 			for j := transIdx; j < i; j++ {
 				eposts[j].acctlevel, eposts[j].acctterm = splitByStrings(accum, eposts[j].acct, true, divider)
-				eposts[j].acctsort = getSortOrderString(acctval, eposts[j].acct, divider)
+				eposts[j].acctsort = getSortOrderString(order, eposts[j].acct, divider)
 			}
 
 			// Create new postings
@@ -251,7 +290,7 @@ func (b *Book) Accumulate(toCCY string, divider string, credit *regexp.Regexp, h
 
 				// Find the level
 				newlevels, newterm := splitByStrings(accum, k, false, divider)
-				newsort := getSortOrderString(acctval, k, divider)
+				newsort := getSortOrderString(order, k, divider)
 
 				// Add new posting
 				sposts = append(sposts, Posting{
-- 
2.43.0


From 503ba354c2e3244fe4dbb54aaa2eb103559e83b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 29/78] fix: ledger output lost digits, followed the language's
 number format and did not quote payees and price units

---
 cmd/app/print.go      | 19 +++++++++++
 cmd/export/ledger.go  | 74 ++++++++++++++++++++++++++++++++-----------
 cmd/reports/ledger.go | 31 ++----------------
 3 files changed, 77 insertions(+), 47 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index a813242..6e0ccca 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -4,6 +4,7 @@ import (
 	"encoding/csv"
 	"encoding/json"
 	"fmt"
+	"github.com/mescanne/goledger/book"
 	"golang.org/x/term"
 	"golang.org/x/text/language"
 	"golang.org/x/text/message"
@@ -267,6 +268,24 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 	return b.pr.Sprintf("%.*f", dec, f)
 }
 
+// Format the number for other programs (or goledger itself) to read: the same in
+// all locales and with all the decimals the amount has.
+func (b *BookPrinter) FormatExact(symbol string, amount *big.Rat) string {
+	dec, ok := b.decs[symbol]
+	if !ok {
+		dec = 2
+	}
+	return FormatDecimals(amount, dec)
+}
+
+// Format the number with at least dec decimals, but with all the decimals it has
+func FormatDecimals(amount *big.Rat, dec int) string {
+	if needed, exact := book.Decimals(amount); exact && needed > dec {
+		dec = needed
+	}
+	return amount.FloatString(dec)
+}
+
 // Formal the symbol (CCY) for printing
 func (b *BookPrinter) FormatSymbol(symbol string) string {
 	if symbol == "" {
diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index e6429a3..1f28052 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -4,48 +4,86 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/loader"
+	"math/big"
+	"strings"
 )
 
 func LedgerFormatCurrency(ccy string) string {
-	needsQuotes := false
+	needsQuotes := strings.HasPrefix(ccy, "\"")
 	for _, c := range ccy {
 		if !loader.IsCCYRune(rune(c)) {
 			needsQuotes = true
 		}
 	}
 	if needsQuotes {
-		ccy = "\"" + ccy + "\""
+		ccy = ledgerQuote(ccy)
 	}
 	return ccy
 }
 
-func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
-	trans := bk.Transactions()
+// There is no escaping within quotes
+func ledgerQuote(s string) string {
+	return "\"" + strings.ReplaceAll(ledgerLine(s), "\"", "'") + "\""
+}
 
-	for _, posts := range trans {
-		tnote := posts.GetTransactionNote()
-		if tnote != "" {
-			tnote = "  ; " + tnote
-		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
-		for _, p := range posts {
-			pnote := p.GetPostNote()
-			if pnote != "" {
-				pnote = "  ; " + pnote
-			}
+// Text can't span lines
+func ledgerLine(s string) string {
+	return strings.ReplaceAll(s, "\n", " ")
+}
+
+func ledgerFormatPayee(payee string) string {
+	if strings.Contains(payee, ";") || strings.HasPrefix(payee, "*") || strings.HasPrefix(payee, "\"") {
+		return ledgerQuote(payee)
+	}
+	return ledgerLine(payee)
+}
+
+func ledgerFormatNote(note string) string {
+	if note == "" {
+		return ""
+	}
+	return "  ; " + ledgerLine(note)
+}
 
-			ccy := LedgerFormatCurrency(p.GetCCY())
+// Format the amount with all of its decimals, grouped by thousands
+func ledgerFormatAmount(b *app.BookPrinter, ccy string, amount *big.Rat) string {
+	num := b.FormatExact(ccy, amount)
+	first := 0
+	if num[0] == '-' {
+		first = 1
+	}
+	end := strings.Index(num, ".")
+	if end == -1 {
+		end = len(num)
+	}
+	for i := end - 3; i > first; i -= 3 {
+		num = num[:i] + "," + num[i:]
+	}
+	return b.FormatSymbol(LedgerFormatCurrency(ccy)) + num
+}
 
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
+func ShowLedgerTransactions(b *app.BookPrinter, trans []book.Transaction) error {
+	for _, posts := range trans {
+		b.Printf("%s %s%s\n", posts.GetDate(), ledgerFormatPayee(posts.GetPayee()), ledgerFormatNote(posts.GetTransactionNote()))
+		for _, p := range posts {
+			b.Printf("  %s  %s%s\n", p.GetAccount(), ledgerFormatAmount(b, p.GetCCY(), p.GetAmount()), ledgerFormatNote(p.GetPostNote()))
 		}
 		b.Printf("\n")
 	}
 
+	return nil
+}
+
+func ShowLedger(b *app.BookPrinter, bk *book.Book) error {
+	if err := ShowLedgerTransactions(b, bk.Transactions()); err != nil {
+		return err
+	}
+
 	b.Printf("\n; Prices\n")
 	for _, pair := range bk.GetPricePairs() {
 		pl := bk.GetPriceList(pair.Unit, pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s%s\n", p.GetDate(), pair.Unit, b.FormatSymbol(pair.CCY), b.FormatNumber(pair.CCY, p.GetPrice()))
+			b.Printf("P %s 00:00:00 %s %s\n", p.GetDate(), LedgerFormatCurrency(pair.Unit), ledgerFormatAmount(b, pair.CCY, p.GetPrice()))
 		}
 	}
 
diff --git a/cmd/reports/ledger.go b/cmd/reports/ledger.go
index 07d497a..d66c16d 100644
--- a/cmd/reports/ledger.go
+++ b/cmd/reports/ledger.go
@@ -3,36 +3,9 @@ package reports
 import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
-	"github.com/mescanne/goledger/loader"
+	"github.com/mescanne/goledger/cmd/export"
 )
 
 func ShowLedger(b *app.BookPrinter, trans []book.Transaction) error {
-	for _, posts := range trans {
-		tnote := posts.GetTransactionNote()
-		if tnote != "" {
-			tnote = "  ; " + tnote
-		}
-		b.Printf("%s %s%s\n", posts.GetDate(), posts.GetPayee(), tnote)
-		for _, p := range posts {
-			pnote := p.GetPostNote()
-			if pnote != "" {
-				pnote = "  ; " + pnote
-			}
-
-			ccy := p.GetCCY()
-			needsQuotes := false
-			for _, c := range ccy {
-				if !loader.IsCCYRune(rune(c)) {
-					needsQuotes = true
-				}
-			}
-			if needsQuotes {
-				ccy = "\"" + ccy + "\""
-			}
-
-			b.Printf("  %s  %s%s%s\n", p.GetAccount(), b.FormatSymbol(ccy), b.FormatNumber(p.GetCCY(), p.GetAmount()), pnote)
-		}
-		b.Printf("\n")
-	}
-	return nil
+	return export.ShowLedgerTransactions(b, trans)
 }
-- 
2.43.0


From 6d2df3dad99d36d866c76b9df017e30c649f26a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 30/78] fix: beancount output varied in order, followed the
 language, closed accounts with balances, did not escape quotes and wrote
 ledger prices

---
 cmd/export/beancount.go  | 80 +++++++++++++++++++++++++++++-----------
 cmd/reports/beancount.go | 73 ++----------------------------------
 2 files changed, 62 insertions(+), 91 deletions(-)

diff --git a/cmd/export/beancount.go b/cmd/export/beancount.go
index b84366e..ecbd42e 100644
--- a/cmd/export/beancount.go
+++ b/cmd/export/beancount.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"math/big"
+	"sort"
 	"strings"
 )
 
@@ -18,18 +19,23 @@ func FormatAccount(acct string) string {
 	return acct
 }
 
-func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
+func beancountString(s string) string {
+	s = strings.ReplaceAll(s, "\\", "\\\\")
+	s = strings.ReplaceAll(s, "\"", "\\\"")
+	return "\"" + s + "\""
+}
 
-	trans := bk.Transactions()
+// Open the accounts and close those that end with zero balances
+func ShowBeancountAccounts(b *app.BookPrinter, trans []book.Transaction) error {
 
 	// Gather account info
 	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
+		first book.Date
+		last  book.Date
+		bals  map[string]*big.Rat
 	}
 	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
+	accts := make([]string, 0)
 	for _, t := range trans {
 		for _, p := range t {
 			acct := FormatAccount(p.GetAccount())
@@ -37,31 +43,38 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 			if !ok {
 				stats = &accountInfo{
 					first: p.GetDate(),
-					last:  p.GetDate(),
+					bals:  make(map[string]*big.Rat),
 				}
 				lstats[acct] = stats
-			} else {
-				stats.last = p.GetDate()
+				accts = append(accts, acct)
+			}
+			stats.last = p.GetDate()
+			ccy := FormatCurrency(p.GetCCY())
+			if stats.bals[ccy] == nil {
+				stats.bals[ccy] = new(big.Rat)
 			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
+			stats.bals[ccy].Add(stats.bals[ccy], p.GetAmount())
 		}
 	}
-
-	// Operating currency
-	if baseCCY != "" {
-		b.Printf("option \"operating_currency\" \"%s\"\n\n", baseCCY)
-	}
+	sort.Strings(accts)
 
 	// Account open close
-	for acct, stats := range lstats {
+	for _, acct := range accts {
+		stats := lstats[acct]
 		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
+		isZero := true
+		for _, bal := range stats.bals {
+			isZero = isZero && bal.Sign() == 0
+		}
+		if isZero {
 			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
 		}
 	}
 
-	// Transactions
-	b.Printf("\n; Transactions\n")
+	return nil
+}
+
+func ShowBeancountTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 	for _, posts := range trans {
 		tnote := posts.GetTransactionNote()
 		if tnote != "" {
@@ -69,18 +82,41 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		}
 
 		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
+		b.Printf("%s * %s%s\n", posts.GetDate(), beancountString(posts.GetPayee()), tnote)
 		for _, p := range posts {
 			pnote := p.GetPostNote()
 			if pnote != "" {
 				pnote = "  ; " + pnote
 			}
 			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
+			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatExact(p.GetCCY(), p.GetAmount()), ccy, pnote)
 		}
 		b.Printf("\n")
 	}
 
+	return nil
+}
+
+func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
+
+	trans := bk.Transactions()
+
+	// Operating currency
+	if baseCCY != "" {
+		b.Printf("option \"operating_currency\" \"%s\"\n\n", baseCCY)
+	}
+
+	// Account open close
+	if err := ShowBeancountAccounts(b, trans); err != nil {
+		return err
+	}
+
+	// Transactions
+	b.Printf("\n; Transactions\n")
+	if err := ShowBeancountTransactions(b, trans); err != nil {
+		return err
+	}
+
 	// Prices
 	b.Printf("\n; Prices\n")
 	for _, pair := range bk.GetPricePairs() {
@@ -88,7 +124,7 @@ func ShowBeancount(b *app.BookPrinter, bk *book.Book, baseCCY string) error {
 		unit := FormatCurrency(pair.Unit)
 		ccy := FormatCurrency(pair.CCY)
 		for _, p := range pl {
-			b.Printf("P %s 00:00:00 %s %s %s\n", p.GetDate(), unit, b.FormatNumber(pair.CCY, p.GetPrice()), ccy)
+			b.Printf("%s price %s %s %s\n", p.GetDate(), unit, b.FormatExact(pair.CCY, p.GetPrice()), ccy)
 		}
 	}
 
diff --git a/cmd/reports/beancount.go b/cmd/reports/beancount.go
index ee2eb09..f4c5b83 100644
--- a/cmd/reports/beancount.go
+++ b/cmd/reports/beancount.go
@@ -3,81 +3,16 @@ package reports
 import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
-	"math/big"
-	"strings"
+	"github.com/mescanne/goledger/cmd/export"
 )
 
-func FormatCurrency(ccy string) string {
-	ccy = strings.ReplaceAll(ccy, " ", "")
-	ccy = strings.ToUpper(ccy)
-	return ccy
-}
-
-func FormatAccount(acct string) string {
-	acct = strings.Title(acct)
-	return acct
-}
-
 func ShowBeancount(b *app.BookPrinter, trans []book.Transaction) error {
 
-	// Gather account info
-	type accountInfo struct {
-		first  book.Date
-		last   book.Date
-		isZero bool
-	}
-	lstats := make(map[string]*accountInfo)
-	var zero big.Rat
-	for _, t := range trans {
-		for _, p := range t {
-			acct := FormatAccount(p.GetAccount())
-			stats, ok := lstats[acct]
-			if !ok {
-				stats = &accountInfo{
-					first: p.GetDate(),
-					last:  p.GetDate(),
-				}
-				lstats[acct] = stats
-			} else {
-				stats.last = p.GetDate()
-			}
-			stats.isZero = (p.GetBalance().Cmp(&zero) == 0)
-		}
-	}
-
-	for acct, stats := range lstats {
-		b.Printf("%s open %s\n", stats.first, acct)
-		if stats.isZero {
-			b.Printf("%s close %s\n", stats.last.AddDays(1), acct)
-		}
-	}
-
-	// Dump Account Info for
-	// 2009/01/01 open Assets:Mark:Current:CitibankUKChequing
-	// 2009/01/01 open Equity:Mark:OpeningBalance
-	// DATE close <account>
-
 	// Check all currencies adhere to the rules of beancount, and suggest re-mapping
 	// explicitly if not.
 
-	// Transactions
-	for _, posts := range trans {
-		tnote := posts.GetTransactionNote()
-		if tnote != "" {
-			tnote = "  ; " + tnote
-		}
-
-		// Slightly different format. NOTE -- CCYs have strict requirements.
-		b.Printf("%s * \"%s\"%s\n", posts.GetDate(), posts.GetPayee(), tnote)
-		for _, p := range posts {
-			pnote := p.GetPostNote()
-			if pnote != "" {
-				pnote = "  ; " + pnote
-			}
-			ccy := FormatCurrency(p.GetCCY())
-			b.Printf("  %s  %s %s%s\n", FormatAccount(p.GetAccount()), b.FormatNumber(p.GetCCY(), p.GetAmount()), ccy, pnote)
-		}
-		b.Printf("\n")
+	if err := export.ShowBeancountAccounts(b, trans); err != nil {
+		return err
 	}
-	return nil
+	return export.ShowBeancountTransactions(b, trans)
 }
-- 
2.43.0


From 917498ebb898063401b826e1e89d626dfb0712b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 31/78] fix: CSV export rounded amounts to six decimals and
 float precision

---
 cmd/export/csv.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmd/export/csv.go b/cmd/export/csv.go
index dfc28ba..d83d49b 100644
--- a/cmd/export/csv.go
+++ b/cmd/export/csv.go
@@ -4,7 +4,6 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"encoding/csv"
-	"fmt"
 )
 
 func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
@@ -25,14 +24,13 @@ func ShowCSV(b *app.BookPrinter, bk *book.Book) error {
 	// Postings
 	for _, posts := range bk.Transactions() {
 		for _, p := range posts {
-        		f, _ := p.GetAmount().Float64()
 			csvwrite.Write([]string{
 				posts.GetDate().String(),
 				posts.GetPayee(),
 				posts.GetTransactionNote(),
 				p.GetAccount(),
 				p.GetCCY(),
-				fmt.Sprintf("%f", f),
+				app.FormatDecimals(p.GetAmount(), 6),
 				p.GetPostNote(),
 			})
 		}
-- 
2.43.0


From f746442eb0b4868183cd786a0e153e21daf38eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 32/78] fix: amounts with more than 15 digits were shown with
 wrong digits in Text and HTML reports

---
 cmd/app/print.go | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 6e0ccca..249e39c 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -12,6 +12,7 @@ import (
 	"io"
 	"math/big"
 	"os"
+	"strconv"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -265,9 +266,46 @@ func (b *BookPrinter) FormatNumber(symbol string, amount *big.Rat) string {
 	if !ok {
 		dec = 2
 	}
+
+	// Amounts with more digits than a float can hold
+	if needed, exact := book.Decimals(amount); exact && needed <= dec {
+		if num := amount.FloatString(dec); num != strconv.FormatFloat(f, 'f', dec, 64) {
+			return b.formatDigits(num)
+		}
+	}
+
 	return b.pr.Sprintf("%.*f", dec, f)
 }
 
+// Format decimal digits with the sign and separators of the locale
+func (b *BookPrinter) formatDigits(num string) string {
+	sample := b.pr.Sprintf("%.1f", -1234567.8)
+	one, two := strings.Index(sample, "1"), strings.Index(sample, "2")
+	seven, eight := strings.Index(sample, "7"), strings.Index(sample, "8")
+	sign, group, point := sample[:one], sample[one+1:two], sample[seven+1:eight]
+
+	var sb strings.Builder
+	if num[0] == '-' {
+		sb.WriteString(sign)
+		num = num[1:]
+	}
+	end := strings.Index(num, ".")
+	if end == -1 {
+		end = len(num)
+	}
+	for i := 0; i < end; i++ {
+		if i > 0 && (end-i)%3 == 0 {
+			sb.WriteString(group)
+		}
+		sb.WriteByte(num[i])
+	}
+	if end < len(num) {
+		sb.WriteString(point)
+		sb.WriteString(num[end+1:])
+	}
+	return sb.String()
+}
+
 // Format the number for other programs (or goledger itself) to read: the same in
 // all locales and with all the decimals the amount has.
 func (b *BookPrinter) FormatExact(symbol string, amount *big.Rat) string {
-- 
2.43.0


From 98fead788e0cabb9e36ca43f690d7c19652b1885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 33/78] fix: a second transaction of a day without payee was
 exported as something that loads differently

---
 book/builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/book/builder.go b/book/builder.go
index 5d4355c..0ab51a0 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -105,6 +105,9 @@ func (b *Builder) NewTransaction(date Date, payee string, note string) {
 
 		idx += 1
 		b.currPayee = fmt.Sprintf("%s (%d)", payee, idx)
+		if payee == "" {
+			b.currPayee = fmt.Sprintf("(%d)", idx)
+		}
 		key = fmt.Sprintf("%d %s", date, b.currPayee)
 	}
 
-- 
2.43.0


From e921a3e31e133e81146ec37e224106a229c2bd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 34/78] fix: a price without a unit or a currency was accepted
 silently

---
 loader/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/loader/parser.go b/loader/parser.go
index e704851..023e6de 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -192,8 +192,14 @@ func (rr *basicReader) parsePrice(loader TransactionLoader) {
 	_ = rr.consumeWS()
 	_ = rr.parseTime()
 	unit := rr.parseCCY()
+	if unit == "" {
+		rr.stop("expected unit for price, got '%c'", rr.ch)
+	}
 	_ = rr.consumeWS()
 	ccy, amt := rr.parseCCYAmt()
+	if ccy == "" {
+		rr.stop("expected currency for price of %s", unit)
+	}
 	_ = rr.parseNote()
 	rr.consumeEOL()
 	loader.AddPrice(book.Date(date), unit, ccy, amt)
-- 
2.43.0


From c8fedc1374fb592f9d4c40654d41a84d08d80d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 35/78] fix: reclassify took a random instead of the most used
 counter-account

---
 book/book_reclassify.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/book/book_reclassify.go b/book/book_reclassify.go
index 79091b3..8ea1452 100644
--- a/book/book_reclassify.go
+++ b/book/book_reclassify.go
@@ -46,14 +46,14 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		}
 	}
 
-	// Choose the most common (or one of the most common) accounts
+	// Choose the most common (or first by name of the most common) accounts
 	payee_mapping := make(map[string]string)
 	for payee, caccts := range payee_mapping_all {
 		max := 0
 		macct := ""
 		for cacct, k := range caccts {
-			if k > max {
-				k = max
+			if k > max || (k == max && cacct < macct) {
+				max = k
 				macct = cacct
 			}
 		}
@@ -76,17 +76,20 @@ func (b *Book) ReclassifyByAccount(ref *Book, refacct string, dist func(a, b str
 		}
 
 		max_match := 0.0
+		max_payee := ""
 		max_cacct := ""
 		for p, c := range payee_mapping {
 			d := dist(trans.GetPayee(), p)
-			if d > max_match {
+			if d > max_match || (d > 0.0 && d == max_match && p < max_payee) {
 				max_match = d
+				max_payee = p
 				max_cacct = c
 			}
 		}
 
 		if max_match > 0.0 {
 			trans[ctrans].acct = max_cacct
+			trans[ctrans].acctterm = max_cacct
 		}
 	}
 }
-- 
2.43.0


From 9053798ad393b078fd924865ff2eaf28e6587e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 36/78] fix: import printed the first files when a later one
 failed

---
 cmd/importer/import.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/importer/import.go b/cmd/importer/import.go
index 5b321fc..3593efa 100644
--- a/cmd/importer/import.go
+++ b/cmd/importer/import.go
@@ -102,6 +102,13 @@ func (imp *ImportDef) run(app *app.App, rcmd *cobra.Command, args []string) erro
 			})
 		}
 
+		// Add to previous books
+		prevbooks = append(prevbooks, b)
+	}
+
+	// Only print if everything could be imported
+	for _, b := range prevbooks {
+
 		// Use decimals of main book
 		bp := app.NewBookPrinter(main.GetCCYDecimals())
 
@@ -109,9 +116,6 @@ func (imp *ImportDef) run(app *app.App, rcmd *cobra.Command, args []string) erro
 		if err := reports.ShowLedger(bp, b.Transactions()); err != nil {
 			return err
 		}
-
-		// Add to previous books
-		prevbooks = append(prevbooks, b)
 	}
 
 	return nil
-- 
2.43.0


From ac435d7df00f8449219d700ed96cad99e32787af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 37/78] fix: HTML reports left boxes open and did not escape
 text

---
 cmd/reports/html.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/reports/html.go b/cmd/reports/html.go
index 9ec348d..b691002 100644
--- a/cmd/reports/html.go
+++ b/cmd/reports/html.go
@@ -4,6 +4,7 @@ import (
 	"github.com/mescanne/goledger/book"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/mescanne/goledger/cmd/utils"
+	"html"
 	"math/big"
 )
 
@@ -58,7 +59,7 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 		b.Printf("  <div class=\"date\">%s</div>\n", posts.GetDate())
 		payee := posts.GetPayee()
 		if payee != "" {
-			b.Printf("  <div class=\"payee\">%s</div>\n", payee)
+			b.Printf("  <div class=\"payee\">%s</div>\n", html.EscapeString(payee))
 		}
 		b.Printf("</div>\n")
 
@@ -92,12 +93,15 @@ func ShowHTMLTransactions(b *app.BookPrinter, trans []book.Transaction, HTMLCSS
 
 			thisIndent := indentedString(thisLevel)
 			b.Printf("%s  <div class=\"post indent%d %s\">\n", thisIndent, thisLevel, diff)
-			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, v.GetAccountTerm())
-			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, b.FormatSymbol(v.GetCCY()), b.FormatNumber(v.GetCCY(), amt))
+			b.Printf("%s    <div class=\"account\">%s</div>\n", thisIndent, html.EscapeString(v.GetAccountTerm()))
+			b.Printf("%s    <div class=\"amount %s\">%s%s</div>\n", thisIndent, sign, html.EscapeString(b.FormatSymbol(v.GetCCY())), b.FormatNumber(v.GetCCY(), amt))
 			b.Printf("%s  </div>\n", thisIndent)
 
 			lastLevel = thisLevel
 		}
+		for i := lastLevel - 1; i >= 0; i-- {
+			b.Printf("%s  </div>\n", indentedString(i))
+		}
 		b.Printf("</div>\n")
 
 		// End of report
-- 
2.43.0


From 47c04bf7bbea08e32bffb9c64bd56ba405c4f11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 38/78] fix: the day of the month was ignored in the internal
 rate of return

---
 book/date.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/book/date.go b/book/date.go
index 9ab24c0..1957c46 100644
--- a/book/date.go
+++ b/book/date.go
@@ -254,7 +254,6 @@ func (date Date) AsYears() float64 {
 	isLeapYear := YearIsLeapYear(year)
 
 	// Add in month-to-date (without leaps)
-	day = 0
 	for i := 0; i < month; i++ {
 		day += monthDays[i]
 
-- 
2.43.0


From 9d81400f307f05bd61272c695eb77fa2a351b571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 39/78] fix: a failed or interrupted save of a state file lost
 its previous contents or went unnoticed

---
 cmd/utils/json.go | 71 ++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 03fbf15..047bdc5 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -113,46 +113,61 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 		return fmt.Errorf("failed mkdir %s: %v", filepath.Dir(file), err)
 	}
 
-	// Open the file
-	fh, err := os.OpenFile(file, os.O_TRUNC|os.O_WRONLY|os.O_CREATE, 0755)
+	// Marshal the JSON bytes
+	b, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
-		return fmt.Errorf("failed opening %s: %v", file, err)
+		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
+	}
+
+	// Follow symbolic links and keep the permissions of an existing file
+	target := file
+	if path, err := filepath.EvalSymlinks(file); err == nil {
+		target = path
+	}
+	mode := os.FileMode(0755)
+	if info, err := os.Stat(target); err == nil {
+		mode = info.Mode().Perm()
 	}
 
-	// Defered closing
+	// Write a new file and then replace the old one, so that it's never lost
+	fh, err := ioutil.TempFile(filepath.Dir(target), "."+filepath.Base(target)+".*.tmp")
+	if err != nil {
+		return fmt.Errorf("failed opening %s: %v", file, err)
+	}
 	defer func() {
-		if err := fh.Close(); err != nil {
-			if oerr != nil {
-				oerr = fmt.Errorf("failed closing %s: %v", file, err)
-			}
+		if oerr != nil {
+			os.Remove(fh.Name())
 		}
 	}()
 
-	// Check if it's gz
-	var w io.Writer = fh
-	if filepath.Ext(file) == ".gz" {
-		gwriter := gzip.NewWriter(fh)
-		defer func() {
-			if err := gwriter.Close(); err != nil {
-				if oerr != nil {
-					oerr = fmt.Errorf("failed closing %s: %v", file, err)
-				}
-			}
-		}()
-		w = gwriter
+	err = writeContents(fh, b, filepath.Ext(file) == ".gz")
+	if cerr := fh.Close(); err == nil {
+		err = cerr
 	}
-
-	// Marshal the JSON bytes
-	b, err := json.MarshalIndent(data, "", "  ")
 	if err != nil {
-		return fmt.Errorf("failed marshalling to json %s: %v", file, err)
+		return fmt.Errorf("failed writing to %s: %v", file, err)
 	}
-
-	// Write the file
-	_, err = w.Write(b)
-	if err != nil {
+	if err := os.Chmod(fh.Name(), mode); err != nil {
 		return fmt.Errorf("failed writing to %s: %v", file, err)
 	}
+	if err := os.Rename(fh.Name(), target); err != nil {
+		return fmt.Errorf("failed replacing %s: %v", file, err)
+	}
 
 	return nil
 }
+
+func writeContents(fh *os.File, b []byte, gz bool) error {
+	if gz {
+		gwriter := gzip.NewWriter(fh)
+		if _, err := gwriter.Write(b); err != nil {
+			return err
+		}
+		if err := gwriter.Close(); err != nil {
+			return err
+		}
+	} else if _, err := fh.Write(b); err != nil {
+		return err
+	}
+	return fh.Sync()
+}
-- 
2.43.0


From 32a4d110563eaca16ea293426a38cfa0ff20d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 40/78] fix: import and generate crashed on a missing or
 non-finite amount and a zero denominator, and wrote postings without currency

---
 script/convert.go  |  4 +++-
 script/starlark.go | 20 +++++++++++++++-----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/script/convert.go b/script/convert.go
index 39f569d..4629b64 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -128,7 +128,9 @@ func GetBigRat(amount starlark.Value) (*big.Rat, error) {
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		amt.SetFloat64(float64(v))
+		if amt.SetFloat64(float64(v)) == nil {
+			return nil, fmt.Errorf("invalid amount %v", v)
+		}
 	case starlark.Int:
 		amt.SetInt(v.BigInt())
 	case starlark.String:
diff --git a/script/starlark.go b/script/starlark.go
index 86ae09a..c8eedb6 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -66,6 +66,20 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 			return nil, fmt.Errorf("invalid date %s", date)
 		}
 
+		// Check everything needed is there
+		if amount == starlark.None {
+			return nil, fmt.Errorf("missing amount")
+		}
+		if (amount2 == starlark.None) != (account2 == "") {
+			return nil, fmt.Errorf("second posting needs both amt2 and account2")
+		}
+		if denom == 0 || denom2 == 0 {
+			return nil, fmt.Errorf("invalid denominator of zero")
+		}
+		if ccy == "" || (amount2 != starlark.None && ccy2 == "") {
+			return nil, fmt.Errorf("missing currency")
+		}
+
 		// Convert the amount
 		amt, err := GetBigRat(amount)
 		if err != nil {
@@ -84,14 +98,10 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		bbuilder.AddPosting(caccount, ccy, neg, "")
 
 		// Nothing else to do
-		if amount2 == starlark.None && account2 == "" {
+		if amount2 == starlark.None {
 			return starlark.None, nil
 		}
 
-		if amount2 == starlark.None || account2 == "" || ccy2 == ccy {
-			// Error
-		}
-
 		// Convert the amount2
 		amt2, err := GetBigRat(amount2)
 		if err != nil {
-- 
2.43.0


From 4b9b6e397f50d21bcab37b3537050ebf0e813184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:01 +0000
Subject: [PATCH 41/78] fix: a float amount such as 0.1 was imported as its
 binary approximation

---
 script/convert.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 4629b64..399883d 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -6,7 +6,9 @@ import (
 	"fmt"
 	"go.starlark.net/starlark"
 	"io"
+	"math"
 	"math/big"
+	"strconv"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -128,7 +130,13 @@ func GetBigRat(amount starlark.Value) (*big.Rat, error) {
 	var amt *big.Rat = &big.Rat{}
 	switch v := amount.(type) {
 	case starlark.Float:
-		if amt.SetFloat64(float64(v)) == nil {
+		// The decimal amount, not its binary approximation
+		f := float64(v)
+		prec := 15
+		if f == math.Trunc(f) {
+			prec = -1
+		}
+		if _, ok := amt.SetString(strconv.FormatFloat(f, 'g', prec, 64)); !ok {
 			return nil, fmt.Errorf("invalid amount %v", v)
 		}
 	case starlark.Int:
-- 
2.43.0


From 6cc93d65d0b0ffc3cdca23ca91be505e75bfd4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 42/78] fix: scripts saw the keys of JSON data in a different
 order on every run

---
 script/convert.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 399883d..c451968 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"math"
 	"math/big"
+	"sort"
 	"strconv"
 )
 
@@ -36,8 +37,14 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 		}
 		return starlark.NewList(newarr), nil
 	case map[string]interface{}:
+		keys := make([]string, 0, len(v))
+		for k := range v {
+			keys = append(keys, k)
+		}
+		sort.Strings(keys)
 		newdict := starlark.NewDict(len(v))
-		for k, nv := range v {
+		for _, k := range keys {
+			nv := v[k]
 			sv, err := jsonToStarlark(nv)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 2f8f370016f9b4516a236b0ecd63b5c38c3c264b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:06 +0000
Subject: [PATCH 43/78] fix: anything after the first value of imported JSON
 was ignored

---
 script/convert.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index c451968..7cf073e 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -66,10 +66,14 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 // This is a Starlark Reader
 func ReadJSON(r io.Reader) (starlark.Value, error) {
 	var p interface{}
-	err := json.NewDecoder(r).Decode(&p)
+	dec := json.NewDecoder(r)
+	err := dec.Decode(&p)
 	if err != nil {
 		return nil, fmt.Errorf("json parsing: %w", err)
 	}
+	if _, err := dec.Token(); err != io.EOF {
+		return nil, fmt.Errorf("json parsing: unexpected data after the first value")
+	}
 
 	s, err := jsonToStarlark(p)
 	if err != nil {
-- 
2.43.0


From d9d7697defbdc9c5af503304bcd12fa0bd792996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:09 +0000
Subject: [PATCH 44/78] fix: empty fields of tab-separated imports were
 skipped, shifting the row

---
 script/convert.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/convert.go b/script/convert.go
index 7cf073e..a13d9f9 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -10,6 +10,7 @@ import (
 	"math/big"
 	"sort"
 	"strconv"
+	"unicode"
 )
 
 type StarlarkReader func(r io.Reader) (starlark.Value, error)
@@ -91,7 +92,7 @@ func GetReadCSV(delim string, header bool) StarlarkReader {
 		// CSV
 		csvr := csv.NewReader(r)
 		csvr.Comma = []rune(delim)[0]
-		csvr.TrimLeadingSpace = true
+		csvr.TrimLeadingSpace = !unicode.IsSpace(csvr.Comma) // would skip empty fields
 		csvr.ReuseRecord = true
 
 		var hdr []string = nil
-- 
2.43.0


From d636125fa2e7ccc07d5f5716df6db4af64b947a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 45/78] fix: filtering the book in a generate script turned off
 its de-duplication

---
 cmd/generate/starlark.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/generate/starlark.go b/cmd/generate/starlark.go
index 76813dd..57dfaad 100644
--- a/cmd/generate/starlark.go
+++ b/cmd/generate/starlark.go
@@ -11,7 +11,7 @@ func (gen *Generate) generate(b *book.Book, sc string) (*book.Book, error) {
 	bbuilder := book.NewBookBuilder()
 	addf := script.GetBuilderFunction(bbuilder, "acct", "ccy", "cacct")
 	globals := map[string]starlark.Value{
-		"data":  script.ConvertBookToStarlark(b),
+		"data":  script.ConvertBookToStarlark(b.Duplicate()),
 		"add":   addf,
 		"error": script.Errorf,
 	}
-- 
2.43.0


From e9b7966f6114a74eee8a22074c63e8d30cac1f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 46/78] fix: imported text with line breaks, quotes or outer
 spaces was printed as something that loads differently

---
 script/starlark.go | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/script/starlark.go b/script/starlark.go
index c8eedb6..1bcb70a 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -9,10 +9,12 @@ import (
 	"go.starlark.net/starlark"
 	"math/big"
 	"os"
+	"strings"
+	"unicode/utf8"
 )
 
 func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", msg)
+	fmt.Printf("; %s\n", strings.ReplaceAll(msg, "\n", "\n; "))
 }
 
 var userError = errors.New("user code")
@@ -25,6 +27,25 @@ var Errorf = starlark.NewBuiltin("error",
 		return starlark.None, fmt.Errorf("%w: %s", userError, msg)
 	})
 
+// Text is on a single line and valid
+func cleanText(s string) string {
+	return strings.TrimSpace(strings.Map(func(r rune) rune {
+		if r == '\n' || r == 0 {
+			return ' '
+		}
+		return r
+	}, s))
+}
+
+// Payees that need quotes can't have quotes themselves
+func cleanPayee(s string) string {
+	s = cleanText(s)
+	if strings.Contains(s, ";") || strings.HasPrefix(s, "*") || strings.HasPrefix(s, "\"") {
+		s = strings.ReplaceAll(s, "\"", "'")
+	}
+	return s
+}
+
 func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, counterAccount string) starlark.Value {
 	buildf := func(thread *starlark.Thread, b *starlark.Builtin, args starlark.Tuple, kwargs []starlark.Tuple) (starlark.Value, error) {
 
@@ -79,6 +100,11 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		if ccy == "" || (amount2 != starlark.None && ccy2 == "") {
 			return nil, fmt.Errorf("missing currency")
 		}
+		for _, c := range []string{ccy, ccy2} {
+			if strings.ContainsAny(c, "\"\n\x00") || !utf8.ValidString(c) {
+				return nil, fmt.Errorf("invalid currency %q", c)
+			}
+		}
 
 		// Convert the amount
 		amt, err := GetBigRat(amount)
@@ -92,6 +118,11 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 		// Set the negative of the amount
 		neg := (&big.Rat{}).Neg(amt)
 
+		// Use the text as it will load again
+		desc = cleanPayee(desc)
+		note = cleanText(note)
+		lnote = cleanText(lnote)
+
 		// Make the transaction
 		bbuilder.NewTransaction(ndate, string(desc), note)
 		bbuilder.AddPosting(account, ccy, amt, lnote)
-- 
2.43.0


From 0ed021b238eff944a6f5631d9dbb20038a2471cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 47/78] fix: endless recursion in a script overflowed the stack

---
 script/starlark.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/script/starlark.go b/script/starlark.go
index 1bcb70a..b7f4434 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -153,6 +153,9 @@ func GetBuilderFunction(bbuilder *book.Builder, account string, ccy string, coun
 	return starlark.NewBuiltin("add", buildf)
 }
 
+// Maximum depth of function calls
+const maxDepth = 10000
+
 func RunStarlark(printf func(*starlark.Thread, string), globals map[string]starlark.Value, code string) error {
 	sc, err := utils.GetFileOrStr(code)
 	if err != nil {
@@ -170,6 +173,17 @@ func RunStarlark(printf func(*starlark.Thread, string), globals map[string]starl
 		Print: printf,
 	}
 
+	// Stop endless recursion before the stack overflows. The depth can't
+	// grow by more than the number of steps in between.
+	thread.SetMaxExecutionSteps(maxDepth)
+	thread.OnMaxSteps = func(thread *starlark.Thread) {
+		if thread.CallStackDepth() > maxDepth {
+			thread.Cancel("recursion too deep")
+			return
+		}
+		thread.SetMaxExecutionSteps(thread.ExecutionSteps() + maxDepth)
+	}
+
 	// This dictionary defines the pre-declared environment.
 	predeclared := starlark.StringDict(globals)
 
-- 
2.43.0


From da4ead547852d215971eabb0817abc87a6fa4d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 48/78] fix: the default configuration file written on first
 use was refused by every later run

---
 cmd/config.go           | 6 +++---
 docs/goledger_config.md | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cmd/config.go b/cmd/config.go
index 46e6ad8..e00eca9 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -86,7 +86,7 @@ The configuration file mirrors largely mirrors parameters available
 on the command line.
 
 There are two notable exceptions:
-  - report.macros
+  - macros
     This section defines macros for the report (set of operations) that
     can be used on the command line arguments or by other macros. This
     is how complex reports can be built up.
@@ -122,12 +122,12 @@ const DEFAULT_CONFIG_FILE = `
 #
 [report]
 combineby = "today"
-type =      "Ansi"
+type =      "Text"
 sum =       true
 convert =   true
 credit =    "^(Income|Trading|Liability|Equity)(:.*)?$"
 
-[report.macros]
+[macros]
 macroA = [
 	"book operation A",
 	"book operation B",
diff --git a/docs/goledger_config.md b/docs/goledger_config.md
index 556aeed..4332061 100644
--- a/docs/goledger_config.md
+++ b/docs/goledger_config.md
@@ -4,7 +4,7 @@ The configuration file mirrors largely mirrors parameters available
 on the command line.
 
 There are two notable exceptions:
-  - report.macros
+  - macros
     This section defines macros for the report (set of operations) that
     can be used on the command line arguments or by other macros. This
     is how complex reports can be built up.
@@ -33,12 +33,12 @@ Starter configuration file:
 #
 [report]
 combineby = "all"
-type =      "Ansi"
+type =      "Text"
 sum =       true
 convert =   true
 credit =    "^(Income|Trading|Liability|Equity)(:.*)?$"
 
-[report.macros]
+[macros]
 macroA = [
 	"book operation A",
 	"book operation B",
-- 
2.43.0


From a166233b3f66974b6e524c357f831f244403cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 49/78] fix: ccy listed the currencies in a different order on
 every run

---
 cmd/currencies/currencies.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index 7989639..b31c690 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/cmd/app"
 	"github.com/spf13/cobra"
+	"sort"
 )
 
 func Add(root *cobra.Command, app *app.App) {
@@ -20,8 +21,14 @@ func Add(root *cobra.Command, app *app.App) {
 			return err
 		}
 
-		for ccy, dec := range b.GetCCYDecimals() {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, dec)
+		decs := b.GetCCYDecimals()
+		ccys := make([]string, 0, len(decs))
+		for ccy := range decs {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+		for _, ccy := range ccys {
+			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
 		}
 
 		return nil
-- 
2.43.0


From 8cc8f8a16515c19d15940baac66b3c159e191712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 50/78] fix: concurrent web requests shared their options and
 output

---
 cmd/app/print.go | 16 ++++++++--------
 cmd/web/web.go   | 19 ++++++++++++-------
 2 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 249e39c..9a4074a 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -23,6 +23,14 @@ var termHeight = -1
 
 func init() {
 
+	// Printers are for a number of languages
+	c := catalog.NewBuilder(catalog.Fallback(language.English))
+	c.SetString(language.Dutch, "", "")
+	c.SetString(language.English, "", "")
+	c.SetString(language.German, "", "")
+	c.SetString(language.French, "", "")
+	message.DefaultCatalog = c
+
 	// If stdout is not a terminal, stop now
 	fd := int(os.Stdout.Fd())
 	if !term.IsTerminal(fd) {
@@ -52,14 +60,6 @@ type BookPrinter struct {
 // Normally decs comes from GetCCYDecimal() from a book.
 func (app *App) NewBookPrinter(decs map[string]int) *BookPrinter {
 
-	// Create a printer for a number of languages
-	c := catalog.NewBuilder(catalog.Fallback(language.English))
-	c.SetString(language.Dutch, "", "")
-	c.SetString(language.English, "", "")
-	c.SetString(language.German, "", "")
-	c.SetString(language.French, "", "")
-	message.DefaultCatalog = c
-
 	// New printer for those languages
 	pr := message.NewPrinter(message.MatchLanguage(app.Lang))
 
diff --git a/cmd/web/web.go b/cmd/web/web.go
index 312d523..5f7fdb8 100644
--- a/cmd/web/web.go
+++ b/cmd/web/web.go
@@ -95,19 +95,24 @@ func (webcfg *WebConfig) handle(app *WebApp, resp http.ResponseWriter, req *http
 // Execute command line program
 func (app *WebApp) Execute(args []string, out io.Writer) error {
 
+	// Requests must not share the options they parse their arguments into
+	reqApp := app.App
+	report := *app.Report
+	reg := *app.Register
+
 	// Set the output
-	app.Output = out
-	app.Colour = false
+	reqApp.Output = out
+	reqApp.Colour = false
 
 	// Load core application
-	appCmd := app.LoadCommand()
+	appCmd := reqApp.LoadCommand()
 
 	// Add sub-commands
 	// As they are webified
-	accounts.Add(appCmd, &app.App)
-	reports.Add(appCmd, &app.App, app.Report)
-	register.Add(appCmd, &app.App, app.Register)
-	currencies.Add(appCmd, &app.App)
+	accounts.Add(appCmd, &reqApp)
+	reports.Add(appCmd, &reqApp, &report)
+	register.Add(appCmd, &reqApp, &reg)
+	currencies.Add(appCmd, &reqApp)
 
 	// Set the arguments
 	appCmd.SetArgs(args)
-- 
2.43.0


From c1cbb347c9c6d7e295779e6d72ebc0313471723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:09 +0000
Subject: [PATCH 51/78] fix: depreciating over no months kept the expense in
 the asset, over too many ran out of memory

---
 cmd/app/book_op.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index 31d71d2..ee42b6b 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -191,6 +191,9 @@ func (app *App) bookOp(b *book.Book, op string, parents []string) error {
 		if err != nil {
 			return fmt.Errorf("depreciate months '%s', invalid: must be integer: %v", args[3], err)
 		}
+		if months < 1 || months > 12000 {
+			return fmt.Errorf("depreciate months '%s', invalid: must be 1 to 12000", args[3])
+		}
 		b.Depreciate(args[1], args[2], "monthly", months)
 		return nil
 	default:
-- 
2.43.0


From d5dcf468b0adea924a71980c3782daf3fd0f9992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:20 +0000
Subject: [PATCH 52/78] fix: an amount elided in several currencies was added
 in a different order on every run

---
 loader/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/loader/parser.go b/loader/parser.go
index 023e6de..8e0cb46 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -8,6 +8,7 @@ import (
 	"math/big"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"unicode"
 )
@@ -369,8 +370,14 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		if dec.Num().Cmp(&ZERO) != 0 {
 			rr.stop("expected currency for amount %s", dec.RatString())
 		}
-		for ccy, dec := range loader.GetLastCCYBals() {
-			if dec.Num().Cmp(&ZERO) != 0 {
+		bals := loader.GetLastCCYBals()
+		ccys := make([]string, 0, len(bals))
+		for ccy := range bals {
+			ccys = append(ccys, ccy)
+		}
+		sort.Strings(ccys)
+		for _, ccy := range ccys {
+			if dec := bals[ccy]; dec.Num().Cmp(&ZERO) != 0 {
 				var x big.Rat
 				x.Neg(dec)
 				loader.AddPosting(acct, ccy, &x, note)
-- 
2.43.0


From 235a8afbb4819f11e5ea2acbfaef8369d98a4e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 53/78] fix: a balance assignment was read as a posting in a
 currency starting with '='

---
 cmd/export/ledger.go | 2 +-
 loader/parser.go     | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/export/ledger.go b/cmd/export/ledger.go
index 1f28052..523275e 100644
--- a/cmd/export/ledger.go
+++ b/cmd/export/ledger.go
@@ -9,7 +9,7 @@ import (
 )
 
 func LedgerFormatCurrency(ccy string) string {
-	needsQuotes := strings.HasPrefix(ccy, "\"")
+	needsQuotes := strings.HasPrefix(ccy, "\"") || strings.HasPrefix(ccy, "=")
 	for _, c := range ccy {
 		if !loader.IsCCYRune(rune(c)) {
 			needsQuotes = true
diff --git a/loader/parser.go b/loader/parser.go
index 8e0cb46..5acec76 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -340,6 +340,9 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		acct = nacct
 	}
 	_ = rr.consumeWS()
+	if rr.ch == '=' {
+		rr.stop("balance assignments are not supported")
+	}
 	isNeg := false
 	if rr.ch == '-' {
 		rr.next()
-- 
2.43.0


From 6963c33d9c41918da7daeef9ba3f7bc711e496f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 54/78] fix: a posting without an amount before the first
 transaction was skipped

---
 book/builder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/book/builder.go b/book/builder.go
index 0ab51a0..775bf10 100644
--- a/book/builder.go
+++ b/book/builder.go
@@ -141,6 +141,10 @@ func (b *Builder) AddPosting(acct string, ccy string, amt *big.Rat, note string)
 }
 
 func (b *Builder) GetLastCCYBals() map[string]*big.Rat {
+	if b.currDate == Date(-1) {
+		panic("posting outside of a transaction")
+	}
+
 	return b.currAmts
 }
 
-- 
2.43.0


From 7c9746251c1241f84f259731775faba46b6e2107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 55/78] fix: Text report lost the amounts of a heading without
 a name (account ending in the divider)

---
 cmd/reports/text.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/reports/text.go b/cmd/reports/text.go
index f2512a2..1bbe152 100644
--- a/cmd/reports/text.go
+++ b/cmd/reports/text.go
@@ -35,7 +35,11 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 	rows = append(rows, header)
 
 	// First column and rows initialize
-	idx := make(map[[3]string]int)
+	type rowKey struct {
+		acct, term, ccy string
+		level           int
+	}
+	idx := make(map[rowKey]int)
 	for i, v := range postingTrans {
 
 		// Get account name
@@ -58,7 +62,7 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		rows[pidx][0] = app.ColumnString(t)
 
 		// Record the index
-		idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}] = pidx
+		idx[rowKey{v.GetAccount(), v.GetAccountTerm(), v.GetCCY(), v.GetAccountLevel()}] = pidx
 	}
 
 	// Now fill in the data
@@ -67,7 +71,7 @@ func ShowTransactions(b *app.BookPrinter, trans []book.Transaction) error {
 		for _, v := range trans[i] {
 
 			// Find keys for posting
-			pidx, ok := idx[[3]string{v.GetAccount(), v.GetAccountTerm(), v.GetCCY()}]
+			pidx, ok := idx[rowKey{v.GetAccount(), v.GetAccountTerm(), v.GetCCY(), v.GetAccountLevel()}]
 			if !ok {
 				return fmt.Errorf("account %s (term %s) currency %s not on all transactions; must summarise!",
 					v.GetAccount(),
-- 
2.43.0


From 240b6214558ba3a91a6d792a8d35e63347930828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:42 +0000
Subject: [PATCH 56/78] fix: spaces other than ' ' were dropped in tables
 (digit groups in French)

---
 cmd/app/print.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 9a4074a..0a64d1c 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -424,7 +424,7 @@ func Length(s string) int {
 		}
 
 		// If it's not printable or a tab (convert to a space), we skip it.
-		if !unicode.IsPrint(r) && r != '\t' {
+		if !unicode.IsGraphic(r) && r != '\t' {
 			continue
 		}
 
@@ -464,7 +464,7 @@ func PadString(s string, max int, justify_left bool) string {
 		}
 
 		// If it's not printable or a tab (convert to a space), we skip it.
-		if !unicode.IsPrint(r) && r != '\t' {
+		if !unicode.IsGraphic(r) && r != '\t' {
 			continue
 		}
 
-- 
2.43.0


From e015bd9862cdfe4b3b640976900d79963eac866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:10 +0000
Subject: [PATCH 57/78] fix: the rate of return of a losing investment came out
 as -100%

---
 book/irr.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/book/irr.go b/book/irr.go
index c2559cd..bb45158 100644
--- a/book/irr.go
+++ b/book/irr.go
@@ -41,8 +41,9 @@ func CalculateIRR(date []Date, cashflow []float64) float64 {
 			break
 		}
 
-		if newRate < -1 {
-			newRate = -0.999999999
+		// A step past -100% has gone too far
+		if newRate <= -1 {
+			newRate = (guess - 1) / 2
 		}
 		guess = newRate
 	}
-- 
2.43.0


From 39c7e3eab9ce7f402e4a470c3230f4773f506bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 58/78] fix: which note merged postings keep depended on
 reading the book in between

---
 book/book.go         | 1 +
 book/book_compact.go | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/book/book.go b/book/book.go
index 2b8ecba..b92749e 100644
--- a/book/book.go
+++ b/book/book.go
@@ -307,6 +307,7 @@ func (b *Book) MapAmount(mapper func(date Date, ccy string) (*big.Rat, string))
 		p[i].ccy = ccy
 		p[i].val.Mul(p[i].val, v)
 	}
+	b.compact()
 }
 
 func (b *Book) MapAccount(mapper func(acct string) string) {
diff --git a/book/book_compact.go b/book/book_compact.go
index fd00b62..ee1eb37 100644
--- a/book/book_compact.go
+++ b/book/book_compact.go
@@ -12,8 +12,8 @@ func (b *Book) compact() {
 		return
 	}
 
-	// Sort
-	sort.Slice(b.post, func(i, j int) bool {
+	// Sort, the first of the common entries staying first
+	sort.SliceStable(b.post, func(i, j int) bool {
 		return b.post[i].isLess(&b.post[j])
 	})
 
-- 
2.43.0


From 0914dd8cefccca03ef070eef2337d06bc18118cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:08 +0000
Subject: [PATCH 59/78] fix: amounts of currencies ending in a digit or sign
 were run together with it

---
 cmd/app/print.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/app/print.go b/cmd/app/print.go
index 0a64d1c..d6dca9c 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -329,7 +329,8 @@ func (b *BookPrinter) FormatSymbol(symbol string) string {
 	if symbol == "" {
 		return symbol
 	}
-	if sym := []rune(symbol); unicode.IsLetter(sym[len(sym)-1]) || sym[len(sym)-1] == '"' {
+	sym := []rune(symbol)
+	if last := sym[len(sym)-1]; unicode.IsLetter(last) || unicode.IsDigit(last) || strings.ContainsRune("\"-.,", last) {
 		return symbol + " "
 	}
 	return symbol
-- 
2.43.0


From af35861c73156b5c22b0dd80c9bc2469eebf465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:00 +0000
Subject: [PATCH 60/78] fix: types in the configuration were not understood as
 those of the flags (other case, invalid)

---
 cmd/export/export.go     | 3 +++
 cmd/register/register.go | 3 +++
 cmd/reports/report.go    | 6 ++++++
 cmd/utils/types.go       | 9 +++++++++
 4 files changed, 21 insertions(+)

diff --git a/cmd/export/export.go b/cmd/export/export.go
index 350531c..3ab8656 100644
--- a/cmd/export/export.go
+++ b/cmd/export/export.go
@@ -38,6 +38,9 @@ func Add(cmd *cobra.Command, app *app.App, export *ExportReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := exportType.Check(); err != nil {
+			return fmt.Errorf("export type: %w", err)
+		}
 		return export.run(app, cmd, args)
 	}
 }
diff --git a/cmd/register/register.go b/cmd/register/register.go
index ae56eb6..4862534 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -57,6 +57,9 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 	ncmd.Flags().BoolVar(&reg.Split, "split", reg.Split, "split multiple counteraccounts into separate postings")
 	ncmd.Flags().BoolVar(&reg.Convert, "convert", reg.Convert, "convert postings to base currency")
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := reportType.Check(); err != nil {
+			return fmt.Errorf("report type: %w", err)
+		}
 		return reg.run(app, cmd, args)
 	}
 
diff --git a/cmd/reports/report.go b/cmd/reports/report.go
index bde4d19..c32326d 100644
--- a/cmd/reports/report.go
+++ b/cmd/reports/report.go
@@ -88,6 +88,12 @@ func Add(cmd *cobra.Command, app *app.App, report *TransactionReport) {
 	}
 	ncmd.ValidArgs = macroNames
 	ncmd.RunE = func(cmd *cobra.Command, args []string) error {
+		if err := floorType.Check(); err != nil {
+			return fmt.Errorf("combine by: %w", err)
+		}
+		if err := reportType.Check(); err != nil {
+			return fmt.Errorf("report type: %w", err)
+		}
 		return report.run(app, cmd, args)
 	}
 }
diff --git a/cmd/utils/types.go b/cmd/utils/types.go
index a5e1ee8..84aaa38 100644
--- a/cmd/utils/types.go
+++ b/cmd/utils/types.go
@@ -73,6 +73,15 @@ func (e *Enum) Set(value string) error {
 	return fmt.Errorf("invalid value '%s', must be one of %s", value, e.Values())
 }
 
+// Check that the value is valid, as it might come from the configuration. It
+// ends up as Set() makes it.
+func (e *Enum) Check() error {
+	if *e.Value == "" {
+		return nil
+	}
+	return e.Set(*e.Value)
+}
+
 func (e *Enum) String() string {
 	return *e.Value
 }
-- 
2.43.0


From 3c8f040a8066b254613531c9f260cc280bbc53bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:03 +0000
Subject: [PATCH 61/78] fix: register without a type printed the first account
 before failing

---
 cmd/register/register.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/register/register.go b/cmd/register/register.go
index 4862534..bf063fc 100644
--- a/cmd/register/register.go
+++ b/cmd/register/register.go
@@ -8,6 +8,7 @@ import (
 	"github.com/spf13/cobra"
 	"math/big"
 	"regexp"
+	"strings"
 )
 
 // Configuration for a Register Report
@@ -68,6 +69,11 @@ func Add(cmd *cobra.Command, app *app.App, reg *RegisterReport) {
 
 func (reg *RegisterReport) run(rapp *app.App, cmd *cobra.Command, args []string) error {
 
+	// Nothing is printed without a type
+	if reg.Type == "" {
+		return fmt.Errorf("missing report type, expected %s", strings.Join(reportTypes, ", "))
+	}
+
 	for _, date := range []string{reg.BeginDate, reg.EndDate} {
 		if date != "" && book.DateFromString(date) == book.Date(0) {
 			return fmt.Errorf("invalid date '%s'", date)
-- 
2.43.0


From 67e424ce497c9576b5b86f06b868ffb40e205a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 62/78] fix: comparing transactions in a script crashed

---
 script/book.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/script/book.go b/script/book.go
index 2f35cd7..bf77f62 100644
--- a/script/book.go
+++ b/script/book.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
 	"go.starlark.net/starlark"
+	"go.starlark.net/syntax"
 )
 
 type starlarkPosting book.Posting
@@ -113,8 +114,31 @@ func (s starlarkTransaction) Hash() (uint32, error) {
 	return 0, fmt.Errorf("cannot hash transaction")
 }
 
+
+// Slices need their own comparison
+func compareSame(op syntax.Token, typ string, same bool) (bool, error) {
+	switch op {
+	case syntax.EQL:
+		return same, nil
+	case syntax.NEQ:
+		return !same, nil
+	default:
+		return false, fmt.Errorf("%s %s %s not implemented", typ, op, typ)
+	}
+}
+
+func (s starlarkTransaction) CompareSameType(op syntax.Token, y starlark.Value, depth int) (bool, error) {
+	o := y.(starlarkTransaction)
+	return compareSame(op, s.Type(), len(s) == len(o) && (len(s) == 0 || &s[0] == &o[0]))
+}
+
 type starlarkTransactions []book.Transaction
 
+func (s starlarkTransactions) CompareSameType(op syntax.Token, y starlark.Value, depth int) (bool, error) {
+	o := y.(starlarkTransactions)
+	return compareSame(op, s.Type(), len(s) == len(o) && (len(s) == 0 || &s[0] == &o[0]))
+}
+
 func (s starlarkTransactions) Iterate() starlark.Iterator {
 	return &starlarkIterator{s, 0}
 }
-- 
2.43.0


From 54deab624b3b808a4c6f8ba3672bf2ca562a88d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:30 +0000
Subject: [PATCH 63/78] fix: register crashed with the smallest possible count

---
 cmd/register/show_register.go | 2 +-
 script/book.go                | 1 -
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmd/register/show_register.go b/cmd/register/show_register.go
index 87a1cbe..c8a7cfa 100644
--- a/cmd/register/show_register.go
+++ b/cmd/register/show_register.go
@@ -21,7 +21,7 @@ func ShowReport(b *app.BookPrinter, report book.RegistryReport, format string, c
 	}
 
 	// Restrict count counting from end
-	if count < 0 && len(report) > (-1*count) {
+	if count < 0 && len(report)+count > 0 {
 		report = (report)[len(report)+count : len(report)]
 	}
 
diff --git a/script/book.go b/script/book.go
index bf77f62..9d915e9 100644
--- a/script/book.go
+++ b/script/book.go
@@ -114,7 +114,6 @@ func (s starlarkTransaction) Hash() (uint32, error) {
 	return 0, fmt.Errorf("cannot hash transaction")
 }
 
-
 // Slices need their own comparison
 func compareSame(op syntax.Token, typ string, same bool) (bool, error) {
 	switch op {
-- 
2.43.0


From 1283d8b107fe0a332732a91485ca88a72fdb6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:05 +0000
Subject: [PATCH 64/78] fix: pending Nordigen transactions without an id made
 every download fail

---
 cmd/download/nordigen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/download/nordigen.go b/cmd/download/nordigen.go
index 3b07946..3544e81 100644
--- a/cmd/download/nordigen.go
+++ b/cmd/download/nordigen.go
@@ -378,7 +378,7 @@ func (c *NordigenClient) RefreshAccounts() error {
 
 		type NordigenTransactions struct {
 			Booked  []NordigenTransaction `json:"booked"`
-			Pending []NordigenTransaction `json:"pending"`
+			Pending []interface{}         `json:"pending"`
 		}
 		type NordigenTransactionsResponse struct {
 			Transactions NordigenTransactions `json:"transactions"`
-- 
2.43.0


From dfc7fadae57d57ad3a1154646f578b8b67fd504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 65/78] fix: a null in the list of a bank's answer crashed the
 download

---
 cmd/download/monzo.go    | 10 ++++++----
 cmd/download/starling.go | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 46699c6..147ed34 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -73,7 +73,7 @@ func (m *MonzoClient) Sync() error {
 	}
 
 	type Accounts struct {
-		Accounts []*MonzoAccount
+		Accounts []MonzoAccount
 	}
 	accts := &Accounts{}
 
@@ -85,7 +85,8 @@ func (m *MonzoClient) Sync() error {
 	if m.data.Accounts == nil {
 		m.data.Accounts = make(map[string]*MonzoAccount)
 	}
-	for _, v := range accts.Accounts {
+	for i := range accts.Accounts {
+		v := &accts.Accounts[i]
 		m.data.Accounts[v.ID] = v
 	}
 
@@ -295,7 +296,8 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 
 		// Map new transactions in
 		var created time.Time
-		for _, t := range trans.Trans {
+		for i := range trans.Trans {
+			t := &trans.Trans[i]
 			m.data.Transactions[t.ID] = t
 			thisTime, err := time.Parse(time.RFC3339, t.Created)
 			if err != nil {
@@ -321,7 +323,7 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 }
 
 type Transactions struct {
-	Trans []*Transaction `json:"transactions"`
+	Trans []Transaction `json:"transactions"`
 }
 
 func (m *MonzoClient) getTransactions(accountID string, since string, limit uint) (*Transactions, error) {
diff --git a/cmd/download/starling.go b/cmd/download/starling.go
index 6b3ee1c..1b6dc49 100644
--- a/cmd/download/starling.go
+++ b/cmd/download/starling.go
@@ -125,7 +125,7 @@ func (m *StarlingClient) syncFeed(acct *StarlingAccountData, name string, catego
 
 	// Structure to fetch
 	type FeedItems struct {
-		FeedItems []*FeedItem
+		FeedItems []FeedItem
 	}
 	items := &FeedItems{}
 
@@ -138,7 +138,8 @@ func (m *StarlingClient) syncFeed(acct *StarlingAccountData, name string, catego
 	// Update items
 	updatedItems := 0
 	newItems := 0
-	for _, item := range items.FeedItems {
+	for i := range items.FeedItems {
+		item := &items.FeedItems[i]
 		curr, ok := feed[item.FeedItemUid]
 		if !ok {
 			newItems++
@@ -156,7 +157,7 @@ func (m *StarlingClient) syncFeed(acct *StarlingAccountData, name string, catego
 func (m *StarlingClient) Sync() error {
 
 	type Accounts struct {
-		Accounts []*StarlingAccount
+		Accounts []StarlingAccount
 	}
 	accts := &Accounts{}
 
@@ -169,7 +170,8 @@ func (m *StarlingClient) Sync() error {
 	if m.data.Accounts == nil {
 		m.data.Accounts = make(map[string]*StarlingAccountData)
 	}
-	for _, v := range accts.Accounts {
+	for i := range accts.Accounts {
+		v := &accts.Accounts[i]
 		_, ok := m.data.Accounts[v.AccountUid]
 		if !ok {
 			m.data.Accounts[v.AccountUid] = &StarlingAccountData{}
-- 
2.43.0


From f8732fe2f96ac72aa9947f297ffebdd659073d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:57 +0000
Subject: [PATCH 66/78] fix: accounts that only start like the divider no
 longer get a common heading in summaries

---
 book/book_accum.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/book/book_accum.go b/book/book_accum.go
index 45626fb..e144244 100644
--- a/book/book_accum.go
+++ b/book/book_accum.go
@@ -16,7 +16,7 @@ func findMaxCommonPrefix(left string, right string, divider string) string {
 		if left[i] != right[i] {
 			break
 		}
-		if strings.HasPrefix(left[i:], divider) {
+		if strings.HasPrefix(left[i:], divider) && strings.HasPrefix(right[i:], divider) {
 			prefix = i
 		}
 	}
-- 
2.43.0


From 2f188100d00b19b5f00e2aeebc91fea3a277e553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:44 +0000
Subject: [PATCH 67/78] fix: a search for the rate of return that comes close
 to -100% no longer stops there

---
 book/irr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/book/irr.go b/book/irr.go
index bb45158..72e6f90 100644
--- a/book/irr.go
+++ b/book/irr.go
@@ -37,7 +37,8 @@ func CalculateIRR(date []Date, cashflow []float64) float64 {
 
 		newRate := guess - residual/residualAdjustment
 
-		if math.Abs(newRate-guess) < epsilon {
+		// Close to -100% steps are small long before the rate is found
+		if math.Abs(newRate-guess) < epsilon*math.Min(1, 1+guess) {
 			break
 		}
 
-- 
2.43.0


From 0d892592e41769eda28bcbec1cb23729942eaec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:03 +0000
Subject: [PATCH 68/78] fix: parse errors at the end of a line name that line

---
 loader/lexer.go  | 12 ++++++------
 loader/parser.go |  8 +++++---
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/loader/lexer.go b/loader/lexer.go
index 5118d8b..30e3095 100644
--- a/loader/lexer.go
+++ b/loader/lexer.go
@@ -108,6 +108,11 @@ func (rr *basicReader) consume(e rune) {
 }
 
 func (rr *basicReader) next() rune {
+	// The end of line belongs to the line that it ends
+	if rr.ch == eol {
+		rr.row++
+		rr.col = 0
+	}
 	r, _, err := rr.reader.ReadRune()
 	if err == io.EOF {
 		r = eof
@@ -117,12 +122,7 @@ func (rr *basicReader) next() rune {
 		rr.stop("unexpected NUL byte")
 	}
 	rr.ch = r
-	if rr.ch == eol {
-		rr.row++
-		rr.col = 0
-	} else {
-		rr.col++
-	}
+	rr.col++
 	return r
 }
 
diff --git a/loader/parser.go b/loader/parser.go
index 5acec76..279a87d 100644
--- a/loader/parser.go
+++ b/loader/parser.go
@@ -363,16 +363,18 @@ func (rr *basicReader) parsePosting(loader TransactionLoader, alias map[string]s
 		rr.parseToEOL()
 	}
 	note := rr.parseNote()
-	rr.consumeEOL()
-
+	var ZERO big.Int
 	if ccy == "" {
 		if isNeg {
 			rr.stop("expected amount after '-', got '%c'", rr.ch)
 		}
-		var ZERO big.Int
 		if dec.Num().Cmp(&ZERO) != 0 {
 			rr.stop("expected currency for amount %s", dec.RatString())
 		}
+	}
+	rr.consumeEOL()
+
+	if ccy == "" {
 		bals := loader.GetLastCCYBals()
 		ccys := make([]string, 0, len(bals))
 		for ccy := range bals {
-- 
2.43.0


From 894b11db7e149fdf5036c4aedc3f7f6cb3c9e72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:31 +0000
Subject: [PATCH 69/78] fix: downloads keep numbers of any size and precision
 as they are

---
 cmd/download/monzo.go    |  4 ++--
 cmd/download/net.go      |  2 ++
 cmd/download/nordigen.go |  6 +++---
 cmd/download/starling.go |  8 ++++----
 cmd/utils/json.go        | 20 +++++++++++++++++++-
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 147ed34..82bf8ba 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -202,7 +202,7 @@ type MonzoAccount struct {
 }
 
 func (acc *MonzoAccount) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &acc.Data); err != nil {
+	if err := utils.UnmarshalExact(b, &acc.Data); err != nil {
 		return err
 	}
 	var err error
@@ -223,7 +223,7 @@ type Transaction struct {
 }
 
 func (t *Transaction) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalExact(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
diff --git a/cmd/download/net.go b/cmd/download/net.go
index b2149d0..d2f4682 100644
--- a/cmd/download/net.go
+++ b/cmd/download/net.go
@@ -54,6 +54,7 @@ func postToURL(client *http.Client, url string, pdata url.Values, data interface
 
 	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
 	decoder.DisallowUnknownFields()
+	decoder.UseNumber()
 	if err = decoder.Decode(data); err != nil {
 		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
 	}
@@ -85,6 +86,7 @@ func fetchFromURL(client *http.Client, url string, data interface{}) error {
 
 	decoder := json.NewDecoder(bytes.NewReader(bodyBytes))
 	decoder.DisallowUnknownFields()
+	decoder.UseNumber()
 	if err = decoder.Decode(data); err != nil {
 		return fmt.Errorf("decoding '%v' from url %v: %w", string(bodyBytes), url, err)
 	}
diff --git a/cmd/download/nordigen.go b/cmd/download/nordigen.go
index 3544e81..a2941ca 100644
--- a/cmd/download/nordigen.go
+++ b/cmd/download/nordigen.go
@@ -229,7 +229,7 @@ type Institution struct {
 }
 
 func (i *Institution) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &i.Data); err != nil {
+	if err := utils.UnmarshalExact(b, &i.Data); err != nil {
 		return err
 	}
 	var err error
@@ -254,7 +254,7 @@ type Requisition struct {
 }
 
 func (r *Requisition) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &r.Data); err != nil {
+	if err := utils.UnmarshalExact(b, &r.Data); err != nil {
 		return err
 	}
 	var err error
@@ -285,7 +285,7 @@ type NordigenTransaction struct {
 }
 
 func (t *NordigenTransaction) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalExact(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
diff --git a/cmd/download/starling.go b/cmd/download/starling.go
index 1b6dc49..bce19fb 100644
--- a/cmd/download/starling.go
+++ b/cmd/download/starling.go
@@ -242,7 +242,7 @@ type StarlingAccount struct {
 }
 
 func (acc *StarlingAccount) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &acc.Data); err != nil {
+	if err := utils.UnmarshalExact(b, &acc.Data); err != nil {
 		return err
 	}
 	var err error
@@ -274,7 +274,7 @@ type SavingsGoal struct {
 }
 
 func (t *SavingsGoal) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalExact(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
@@ -298,7 +298,7 @@ type SpendingSpace struct {
 }
 
 func (t *SpendingSpace) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalExact(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
@@ -323,7 +323,7 @@ type FeedItem struct {
 }
 
 func (t *FeedItem) UnmarshalJSON(b []byte) error {
-	if err := json.Unmarshal(b, &t.Data); err != nil {
+	if err := utils.UnmarshalExact(b, &t.Data); err != nil {
 		return err
 	}
 	var err error
diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index 047bdc5..cc1d02f 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -1,6 +1,7 @@
 package utils
 
 import (
+	"bytes"
 	"compress/gzip"
 	"encoding/json"
 	"fmt"
@@ -64,6 +65,23 @@ func ListToStringList(lst []interface{}) ([]string, error) {
 	return s, nil
 }
 
+// UnmarshalExact is json.Unmarshal, except that numbers of any size and
+// precision in untyped data are kept as they are (json.Number).
+func UnmarshalExact(b []byte, data interface{}) error {
+	decoder := json.NewDecoder(bytes.NewReader(b))
+	decoder.UseNumber()
+	if err := decoder.Decode(data); err != nil {
+		if err == io.EOF {
+			return io.ErrUnexpectedEOF
+		}
+		return err
+	}
+	if _, err := decoder.Token(); err != io.EOF {
+		return fmt.Errorf("unexpected data after the JSON value")
+	}
+	return nil
+}
+
 func LoadFromFile(file string, data interface{}) error {
 
 	// Ensure directory exists
@@ -97,7 +115,7 @@ func LoadFromFile(file string, data interface{}) error {
 	}
 
 	// Unmarshal JSON bytes
-	err = json.Unmarshal(b, data)
+	err = UnmarshalExact(b, data)
 	if err != nil {
 		return fmt.Errorf("failed unmarshalling json from %s: %v", file, err)
 	}
-- 
2.43.0


From 2ef12c1eb1827147156f40ea5dc94279eb622509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:34 +0000
Subject: [PATCH 70/78] fix: a Monzo download without progress ends with an
 error

---
 cmd/download/monzo.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmd/download/monzo.go b/cmd/download/monzo.go
index 82bf8ba..fae6d79 100644
--- a/cmd/download/monzo.go
+++ b/cmd/download/monzo.go
@@ -272,6 +272,7 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 	}
 
 	var since = ""
+	var last time.Time
 	for {
 		fmt.Printf("Downloading transactions for account %s... ", accountID)
 
@@ -315,8 +316,12 @@ func (m *MonzoClient) GetAllTransactions(accountID string) error {
 
 		// Use the the time of a minute before the most recent transaction --
 		// Bug in Monzo API, unfortunately.
-		since = created.Add(-1 * time.Second * 60).Format(time.RFC3339)
-
+		next := created.Add(-1 * time.Second * 60).Truncate(time.Second)
+		if !next.After(last) {
+			return fmt.Errorf("no progress beyond %s: more than %d transactions within a minute", since, LIMIT-1)
+		}
+		last = next
+		since = next.Format(time.RFC3339)
 	}
 
 	return nil
-- 
2.43.0


From d573061cab6a3e10afcded1a74f3b2fadfd5d625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:30 +0000
Subject: [PATCH 71/78] fix: move= uses its factor exactly as written

---
 book/book.go       | 11 +++++++++--
 cmd/app/book_op.go |  9 +++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/book/book.go b/book/book.go
index b92749e..b70c2ac 100644
--- a/book/book.go
+++ b/book/book.go
@@ -200,12 +200,19 @@ func (b *Book) Depreciate(search_acct string, replace_acct string, period string
 // replace_acct - account to transfer amount into
 // factor - portion of original posting to transform
 func (b *Book) AdjustPost(search_acct string, replace_acct string, factor float64) {
-	re := regexp.MustCompile(search_acct)
-	var r, i big.Rat
 	// Factor is decimal, not its binary approximation
+	var r big.Rat
 	if _, ok := r.SetString(strconv.FormatFloat(factor, 'g', -1, 64)); !ok {
 		panic(fmt.Sprintf("Invalid factor %v", factor))
 	}
+	b.AdjustPostExact(search_acct, replace_acct, &r)
+}
+
+// Adjust posts as AdjustPost, by an exact factor.
+func (b *Book) AdjustPostExact(search_acct string, replace_acct string, factor *big.Rat) {
+	re := regexp.MustCompile(search_acct)
+	var r, i big.Rat
+	r.Set(factor)
 	i.Neg(&r)
 	newposts := b.post
 	for _, p := range b.post {
diff --git a/cmd/app/book_op.go b/cmd/app/book_op.go
index ee42b6b..4a0c9a2 100644
--- a/cmd/app/book_op.go
+++ b/cmd/app/book_op.go
@@ -3,6 +3,7 @@ package app
 import (
 	"fmt"
 	"github.com/mescanne/goledger/book"
+	"math/big"
 	"regexp"
 	"strconv"
 	"strings"
@@ -150,11 +151,11 @@ func (app *App) bookOp(b *book.Book, op string, parents []string) error {
 		if _, err := regexp.Compile(args[1]); err != nil {
 			return fmt.Errorf("move operation '%s', invalid: %v", op_act, err)
 		}
-		factor, err := strconv.ParseFloat(args[3], 64)
-		if err != nil {
-			return fmt.Errorf("move factor '%s', invalid: must be float: %v", args[3], err)
+		factor, ok := new(big.Rat).SetString(args[3])
+		if !ok {
+			return fmt.Errorf("move factor '%s', invalid: must be a decimal number", args[3])
 		}
-		b.AdjustPost(args[1], args[2], factor)
+		b.AdjustPostExact(args[1], args[2], factor)
 		return nil
 	case "asof=":
 		d := book.DateFromString(op_act)
-- 
2.43.0


From e0ffbff2a1d7c03c62e54c7158c146cfaedb2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:18 +0000
Subject: [PATCH 72/78] fix: a configuration file that could not be completed
 is not created

---
 cmd/config.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/cmd/config.go b/cmd/config.go
index e00eca9..cdff074 100644
--- a/cmd/config.go
+++ b/cmd/config.go
@@ -66,7 +66,7 @@ func load(name string, app *Config) error {
 	}
 
 	// Persistent configuration
-	if err := ioutil.WriteFile(files[0], []byte(DEFAULT_CONFIG_FILE), 0644); err != nil {
+	if err := createFile(files[0], []byte(DEFAULT_CONFIG_FILE)); err != nil {
 		return fmt.Errorf("failed writing config file %s: %w\n", files[0], err)
 	}
 
@@ -80,6 +80,25 @@ func load(name string, app *Config) error {
 	return nil
 }
 
+// Create a file with all of its content, or not at all
+func createFile(file string, b []byte) error {
+	if link, err := os.Readlink(file); err == nil {
+		if !filepath.IsAbs(link) {
+			link = filepath.Join(filepath.Dir(file), link)
+		}
+		file = link
+	}
+	tmp := fmt.Sprintf("%s.%d.tmp", file, os.Getpid())
+	err := ioutil.WriteFile(tmp, b, 0644)
+	if err == nil {
+		err = os.Rename(tmp, file)
+	}
+	if err != nil {
+		os.Remove(tmp)
+	}
+	return err
+}
+
 const config_help = `Configuration File
 
 The configuration file mirrors largely mirrors parameters available
-- 
2.43.0


From 3e9b08d135ab39c415c37b91e3219dc99d40e03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:07 +0000
Subject: [PATCH 73/78] fix: whole numbers of JSON import data beyond the
 precision of a float were rounded

---
 script/convert.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/script/convert.go b/script/convert.go
index a13d9f9..445ab89 100644
--- a/script/convert.go
+++ b/script/convert.go
@@ -23,8 +23,16 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 	switch v := data.(type) {
 	case bool:
 		return starlark.Bool(v), nil
-	case float64:
-		return starlark.Float(v), nil
+	case json.Number:
+		f, err := v.Float64()
+		if err != nil {
+			return nil, fmt.Errorf("number %s: %w", v, err)
+		}
+		// Whole numbers too large for a float, such as identifiers
+		if i, ok := new(big.Int).SetString(v.String(), 10); ok && new(big.Float).SetInt(i).Cmp(big.NewFloat(f)) != 0 {
+			return starlark.MakeBigInt(i), nil
+		}
+		return starlark.Float(f), nil
 	case string:
 		return starlark.String(v), nil
 	case []interface{}:
@@ -68,6 +76,7 @@ func jsonToStarlark(data interface{}) (starlark.Value, error) {
 func ReadJSON(r io.Reader) (starlark.Value, error) {
 	var p interface{}
 	dec := json.NewDecoder(r)
+	dec.UseNumber()
 	err := dec.Decode(&p)
 	if err != nil {
 		return nil, fmt.Errorf("json parsing: %w", err)
-- 
2.43.0


From f6ae13a886f213d46489e21b54c91477a73c1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 74/78] fix: saving through a link to a state file that doesn't
 exist yet replaced the link

---
 cmd/utils/json.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/utils/json.go b/cmd/utils/json.go
index cc1d02f..b45c0c9 100644
--- a/cmd/utils/json.go
+++ b/cmd/utils/json.go
@@ -141,6 +141,12 @@ func SaveToFile(file string, data interface{}) (oerr error) {
 	target := file
 	if path, err := filepath.EvalSymlinks(file); err == nil {
 		target = path
+	} else if link, err := os.Readlink(file); err == nil {
+		// A link to a file that is yet to be created
+		if dir, err := filepath.EvalSymlinks(filepath.Dir(file)); err == nil && !filepath.IsAbs(link) {
+			link = filepath.Join(dir, link)
+		}
+		target = link
 	}
 	mode := os.FileMode(0755)
 	if info, err := os.Stat(target); err == nil {
-- 
2.43.0


From 94ccaba5f336d1d1ba68d6ac86a769e7bc093672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:54 +0000
Subject: [PATCH 75/78] fix: output that could not be written was reported as
 success

---
 cmd/app/app.go               | 18 ++++++++++++------
 cmd/app/print.go             | 16 +++++++++++++++-
 cmd/currencies/currencies.go |  4 +++-
 3 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/cmd/app/app.go b/cmd/app/app.go
index b68b17d..d75c129 100644
--- a/cmd/app/app.go
+++ b/cmd/app/app.go
@@ -36,6 +36,7 @@ type App struct {
 	All     bool                // Use all accounts, rather than just accounts with a non-zero balance
 	Lang    string              // Language for formatting
 	Output  io.Writer           // Default output - only setting in the app (for web)
+	outErr  error               // First error of writing the output
 }
 
 // Default configuration if none specified
@@ -90,7 +91,8 @@ func initialiseLess(w io.Writer) io.Writer {
 	}
 
 	// If stdout is not a terminal, stop now
-	if w != os.Stdout || termWidth == -1 {
+	out, ok := w.(*output)
+	if !ok || out.Writer != os.Stdout || termWidth == -1 {
 		return w
 	}
 
@@ -154,13 +156,17 @@ func (app *App) LoadCommand() *cobra.Command {
 		},
 
 		// Cleanup if needed
-		PersistentPostRun: func(cmd *cobra.Command, args []string) {
-			if appCleanup == nil {
-				return
+		PersistentPostRunE: func(cmd *cobra.Command, args []string) error {
+			if appCleanup != nil {
+				if err := appCleanup(); err != nil {
+					fmt.Printf("error: %v\n", err)
+				}
 			}
-			if err := appCleanup(); err != nil {
-				fmt.Printf("error: %v\n", err)
+			if app.outErr != nil {
+				cmd.SilenceUsage = true
+				return fmt.Errorf("failed writing output: %w", app.outErr)
 			}
+			return nil
 		},
 	}
 
diff --git a/cmd/app/print.go b/cmd/app/print.go
index d6dca9c..c21d8c2 100644
--- a/cmd/app/print.go
+++ b/cmd/app/print.go
@@ -54,6 +54,20 @@ type BookPrinter struct {
 	colour bool
 }
 
+// The output of an application, which is told about errors
+type output struct {
+	io.Writer
+	app *App
+}
+
+func (o *output) Write(p []byte) (int, error) {
+	n, err := o.Writer.Write(p)
+	if err != nil && o.app.outErr == nil {
+		o.app.outErr = err
+	}
+	return n, err
+}
+
 // Create a new BookPrinter for a specified io.Writer and
 // decimal CCY (symbol) formatting.
 //
@@ -64,7 +78,7 @@ func (app *App) NewBookPrinter(decs map[string]int) *BookPrinter {
 	pr := message.NewPrinter(message.MatchLanguage(app.Lang))
 
 	return &BookPrinter{
-		w:      app.Output,
+		w:      &output{app.Output, app},
 		pr:     pr,
 		decs:   decs,
 		colour: app.Colour,
diff --git a/cmd/currencies/currencies.go b/cmd/currencies/currencies.go
index b31c690..e873fa7 100644
--- a/cmd/currencies/currencies.go
+++ b/cmd/currencies/currencies.go
@@ -28,7 +28,9 @@ func Add(root *cobra.Command, app *app.App) {
 		}
 		sort.Strings(ccys)
 		for _, ccy := range ccys {
-			fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy])
+			if _, err := fmt.Fprintf(cmd.OutOrStdout(), "%s => %d decimals\n", ccy, decs[ccy]); err != nil {
+				return fmt.Errorf("failed writing output: %w", err)
+			}
 		}
 
 		return nil
-- 
2.43.0


From 0f574e9abd37e5c4999b4dd6cf3005f903bbebbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:15 +0000
Subject: [PATCH 76/78] fix: print in a script ignored that its output could
 not be written

---
 script/starlark.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/script/starlark.go b/script/starlark.go
index b7f4434..96d09b2 100644
--- a/script/starlark.go
+++ b/script/starlark.go
@@ -13,8 +13,11 @@ import (
 	"unicode/utf8"
 )
 
-func Print(_ *starlark.Thread, msg string) {
-	fmt.Printf("; %s\n", strings.ReplaceAll(msg, "\n", "\n; "))
+func Print(thread *starlark.Thread, msg string) {
+	_, err := fmt.Printf("; %s\n", strings.ReplaceAll(msg, "\n", "\n; "))
+	if err != nil {
+		thread.Cancel(fmt.Sprintf("failed writing output: %v", err))
+	}
 }
 
 var userError = errors.New("user code")
-- 
2.43.0


From bd9308b1ddf61d6a570bf97a97f0d35393f9863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:15 +0000
Subject: [PATCH 77/78] fix: shell integration ignored that its output could
 not be written

---
 cmd/utils/shell.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/utils/shell.go b/cmd/utils/shell.go
index 8fafd2c..6167bb3 100644
--- a/cmd/utils/shell.go
+++ b/cmd/utils/shell.go
@@ -33,10 +33,14 @@ func AddShell(root *cobra.Command) {
 	ncmd.PreRunE = cobra.NoArgs
 	ncmd.RunE = func(rcmd *cobra.Command, args []string) error {
 		if shell == "bash" {
-			fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n")
+			if _, err := fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n"); err != nil {
+				return err
+			}
 			return root.GenBashCompletion(rcmd.OutOrStdout())
 		} else if shell == "zsh" {
-			fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n")
+			if _, err := fmt.Fprintf(rcmd.OutOrStdout(), "COMP_WORDBREAKS=${COMP_WORDBREAKS//:}\n"); err != nil {
+				return err
+			}
 			return root.GenZshCompletion(rcmd.OutOrStdout())
 		} else if shell == "powershell" {
 			return root.GenPowerShellCompletion(rcmd.OutOrStdout())
-- 
2.43.0


From 567467409420d7a51d7a312ba9aabb0ee8b5af2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:43 +0000
Subject: [PATCH 78/78] fix: download accepted an unknown bank as success

---
 cmd/download/download.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/download/download.go b/cmd/download/download.go
index 1547e72..d36eb62 100644
--- a/cmd/download/download.go
+++ b/cmd/download/download.go
@@ -18,6 +18,10 @@ func Add(root *cobra.Command, download *Download) {
 		DisableAutoGenTag: true,
 	}
 	ncmd.Args = cobra.NoArgs
+	// The arguments are only checked for a command that can run.
+	ncmd.RunE = func(rcmd *cobra.Command, args []string) error {
+		return rcmd.Help()
+	}
 	download.Monzo.Add(ncmd)
 	download.Starling.Add(ncmd)
 	download.Nordigen.Add(ncmd)
-- 
2.43.0

