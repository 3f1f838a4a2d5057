module verif

go 1.25
