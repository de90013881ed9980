module verif.local/kit

go 1.15

require verif.local/seam v0.0.0
