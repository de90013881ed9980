module verif.local/seam

go 1.15
