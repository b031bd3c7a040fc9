// Package output is not named after its directory.
package output

// Version of the package
const Version = 1
