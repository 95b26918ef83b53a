module slice

go 1.18
