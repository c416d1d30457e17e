module verifh

go 1.26.0

require (
	github.com/gorilla/mux v1.8.1
	github.com/opentracing/basictracer-go v1.1.0
	github.com/opentracing/opentracing-go v1.2.0
	golang.org/x/net v0.61.0
	pgregory.net/rapid v1.3.0
	sourcegraph.com/sourcegraph/appdash v0.0.0
	sourcegraph.com/sourcegraph/appdash-data v0.0.0
)

require github.com/gogo/protobuf v1.3.2 // indirect

replace sourcegraph.com/sourcegraph/appdash => /repo

replace sourcegraph.com/sourcegraph/appdash-data => ./stubs/appdash-data
