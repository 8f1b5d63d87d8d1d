module gencheck

go 1.21
