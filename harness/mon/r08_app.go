//go:build app

package main

import (
	"github.com/zenazn/goji"
	"github.com/zenazn/goji/web"
)

func init() {
	appRegs = func() (*web.Mux, []regAPI, func(web.HandlerType), func(web.MiddlewareType), func(a, b web.MiddlewareType) error, func(web.MiddlewareType) error) {
		return goji.DefaultMux, []regAPI{
			{"Handle", goji.Handle, "GET"}, {"Connect", goji.Connect, "CONNECT"}, {"Delete", goji.Delete, "DELETE"}, {"Get", goji.Get, "GET"},
			{"Head", goji.Head, "HEAD"}, {"Options", goji.Options, "OPTIONS"}, {"Patch", goji.Patch, "PATCH"}, {"Post", goji.Post, "POST"},
			{"Put", goji.Put, "PUT"}, {"Trace", goji.Trace, "TRACE"},
		}, goji.NotFound, goji.Use, goji.Insert, goji.Abandon
	}
}
