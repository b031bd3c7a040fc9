module vtool

go 1.24.0

require (
	golang.org/x/mod v0.29.0
	golang.org/x/sync v0.18.0 // indirect
	golang.org/x/tools v0.38.0
)
