module mk-lr

go 1.13

require (
	github.com/ldsec/lattigo/v2 v2.3.0
	github.com/stretchr/testify v1.7.0

)
