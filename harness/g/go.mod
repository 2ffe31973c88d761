module verif.local/g

go 1.15
