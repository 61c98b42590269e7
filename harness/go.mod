module verifharness

go 1.25

require (
	github.com/gogo/protobuf v1.3.2
	github.com/gorilla/mux v1.8.1
	github.com/opentracing/basictracer-go v1.1.0
	github.com/opentracing/opentracing-go v1.2.0
	sourcegraph.com/sourcegraph/appdash v0.0.0
)

require sourcegraph.com/sourcegraph/appdash-data v0.0.0-00010101000000-000000000000 // indirect

replace sourcegraph.com/sourcegraph/appdash => /repo

replace sourcegraph.com/sourcegraph/appdash-data => ./stubs/appdash-data
