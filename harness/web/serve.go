//go:build !verifnative

// Package web answers the requests of the command.
package web

import "net/http"

// Serve answers all requests with the function.
func Serve(f func(*http.Request) (*http.Response, error)) { panic("not symbolic") }
