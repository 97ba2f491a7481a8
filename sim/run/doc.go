// Package run holds the test binary every check runs.
package run
