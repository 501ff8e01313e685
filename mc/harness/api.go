//go:build verifapi

package main

import "ecksbee.com/telefacts/pkg/serializables"

func init() {
	globalFile = serializables.DiscoverGlobalFile
}
