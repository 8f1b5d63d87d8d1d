module toolcheck

go 1.21
