module overlaygen

go 1.22
