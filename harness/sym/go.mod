module verif/h/sym

go 1.22.0
