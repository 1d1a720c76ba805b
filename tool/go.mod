module verif/tool

go 1.23
