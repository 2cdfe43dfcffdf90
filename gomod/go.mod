module github.com/oov/psd

go 1.27.3

require (
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/image v0.47.0 // indirect
	golang.org/x/text v0.43.0 // indirect
)
