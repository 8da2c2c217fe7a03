module a0

go 1.27

require (
	github.com/henrydcase/nobs v0.0.0-20200516223741-2500d74484f2
	golang.org/x/sys v0.0.0-20191120155948-bd437916bb0e
)
