module verifharness

go 1.23

require github.com/schemalex/schemalex v0.0.0

require github.com/go-sql-driver/mysql v1.5.0

require (
	github.com/deckarep/golang-set v1.7.1 // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/schemalex/schemalex => /repo
