// Package static stands in for the unfetchable appdash-data module, which
// only holds the static files of the web application.
package static

import "net/http"

// Data is an empty directory of static files.
var Data http.FileSystem = http.Dir("/nonexistent-appdash-static")
