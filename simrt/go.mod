module verif.local/simrt

go 1.23.0
