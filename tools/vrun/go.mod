module vrun

go 1.23
