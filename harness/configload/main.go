// Loads each configuration named on stdin and writes what it holds as one JSON line.
package main

import (
	"bufio"
	"encoding/json"
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
)

type object = map[string]any

func main() {
	sc := bufio.NewScanner(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for sc.Scan() {
		enc.Encode(load(sc.Text()))
	}
}

func load(path string) (res object) {
	defer func() {
		if p := recover(); p != nil {
			res = object{"panic": p}
		}
	}()
	c, err := config.Load(path)
	if err != nil {
		return object{"error": err.Error()}
	}
	cpps := []object{}
	for _, x := range c.Cpps {
		o := object{"variant": x.Variant.String(), "makefile": x.Makefile != nil, "catkin": x.Catkin != nil, "package": nil}
		incs, chans := [][]any{}, [][]any{}
		for _, i := range x.Includes {
			incs = append(incs, []any{i.Src, i.IsSystem})
		}
		for _, ch := range x.Channels {
			chans = append(chans, []any{ch.Name, ch.Type})
		}
		o["includes"], o["channels"] = incs, chans
		if x.Catkin != nil && x.Catkin.Package != nil {
			p := x.Catkin.Package
			o["package"] = object{
				"name": p.Name, "version": p.Version, "description": p.Description, "license": p.License,
				"email": p.Maintainer.Email, "maintainer": p.Maintainer.Name,
				"buildtool": append([]string{}, p.BuildtoolDepends...), "depends": append([]string{}, p.Depends...),
			}
		}
		cpps = append(cpps, o)
	}
	return object{"directory": c.Directory, "cpps": cpps}
}
