// verif
