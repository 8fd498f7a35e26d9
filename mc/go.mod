module verif/mc

go 1.18

require github.com/deNULL/dawg v0.0.0

replace github.com/deNULL/dawg => /repo
