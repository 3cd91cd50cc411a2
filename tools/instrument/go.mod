module instrument

go 1.26.0
