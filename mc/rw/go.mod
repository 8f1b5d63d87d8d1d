module rw

go 1.25
