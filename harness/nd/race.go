//go:build race

package nd

const raceBuild = true
