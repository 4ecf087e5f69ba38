// Package handlers is a stand-in for github.com/gorilla/handlers (not available offline).
package handlers

import (
	"io"
	"net/http"
)

type CORSOption func() error

func CombinedLoggingHandler(out io.Writer, h http.Handler) http.Handler { return h }
func CORS(opts ...CORSOption) func(http.Handler) http.Handler {
	return func(h http.Handler) http.Handler { return h }
}
func AllowedOrigins(s []string) CORSOption { return nil }
func AllowedHeaders(s []string) CORSOption { return nil }
func AllowedMethods(s []string) CORSOption { return nil }
