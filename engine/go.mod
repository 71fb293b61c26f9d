module verif/engine

go 1.26.0

require (
	golang.org/x/tools v0.52.0
	seehuhn.de/go/postscript v0.5.1-0.20250316102127-8863e3a3d4c4
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)
