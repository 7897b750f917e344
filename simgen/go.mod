module verif.local/simgen

go 1.23.0
