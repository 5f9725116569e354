module verif/harness

go 1.21
