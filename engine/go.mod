module symgo

go 1.26.0

require (
	github.com/decred/dcrd/dcrec/secp256k1/v4 v4.2.0
	golang.org/x/crypto v0.21.0
	golang.org/x/tools v0.52.0
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)
