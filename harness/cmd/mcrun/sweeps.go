//go:build go1.22

package main

// sweeps says, per property, what the parameter sweeps add to the histories in
// Bounds: wide grids of argument values, sizes, shapes and counts on short or
// fixed histories. They are the same in both tiers unless said otherwise.
var sweeps = map[string]string{
	"B01": "contents of 200 KiB read in chunks of 1-65535 from sources answering 1-65537 bytes at a time, alone or with a copy lagging behind; a stream read past 2 GiB (thorough: 4 GiB); bodies over two unrelated readers used in turns; single reads, write-outs and seeks of up to megabytes",
	"B02": "the 200 KiB grid of B01; virtual contents of 5 and 9 GiB; single large calls; source failures, after which the count may not be taken back nor called unknown again",
	"B03": "5-64 handles reading in 4 orders with 3 size patterns, leaving and joining meanwhile; copies made and closed 10-70000 times; sources answering at most 1-3 bytes",
	"B04": "3-70000 copies closed in 5 orders at equal or spread positions; copies made and closed 10-70000 times, also as a relay; failing Close with errors of 15 shapes; readers without Close",
	"B05": "histories with the extreme offsets of int64 and whence values outside 0-2; start positions other than 0",
	"B06": "single large calls; histories with the extreme offsets and sizes; source failures; start positions other than 0",
	"B07": "every failure in 8 further shapes (wrapping EOF, file-system errors, timeouts, context errors, uncomparable values, nil pointers in an interface and so on)",
	"B08": "13 real readers (files, directories, pipes, devices, embedded file systems, section readers, buffers)",
	"B09": "writer and source failures in 17 further shapes; write-outs of large contents to writers with and without ReadFrom",
	"B10": "bodies closed before their first use",
	"B11": "",
	"B12": "typed Go values (structs, maps, marshalers, raw messages, big numbers), depth of nesting and sizes around the pooled buffers'; protobuf messages of 8 well-known types; values that refuse to encode",
	"B13": "wide alphabet (extreme seeks, random-access reads, write-outs); files of 3 MiB",
	"R01": "every status from -2 to 1100 and 12 far ones through every method that takes one; a grid of content types; headers present without values, blank or repeated before and after; body lengths around 64 KiB, 2 and 4 GiB; many headers; 100 standard header names given in 3 ways with 1-3 values before any builder call, on the builder or a copy of it; 119 names in any spelling x 29 odd values x 5 calls; digests of 1-70 bytes; 17 error values",
	"R02": "98 header names x 6 numbers of values x 8 numbers of other headers x 8 ways of handing headers on x 9 changes to either side",
	"R03": "every status the builder permits; 98 header names x 3 value lists with and without headers of the same name on the writer; header sets of up to 40 names, present without values, blank, 70000 bytes long, or with meaning to net/http; 15 further error shapes for writer, pusher and source; large bodies",
	"R05": "locations of 37 lengths with every atom at 5 positions; far statuses; sequences of 3 pages (thorough: 4) of all sorts kept while others are made, changed, consumed or served",
	"R06": "far statuses; error values that carry statuses, wrap others or implement odd interfaces; sequences of pages as in R05",
	"W01": "every status from -2 to 1100 except 1xx and 12 far ones; 14 methods; 15 further error shapes; two wrappers used in turns; 14 kinds of request (HTTP/1.0, keep-alive, upgrades, ranges and so on) by method and status; very many calls in a row; large writes; counts beyond 4 GiB",
	"W02": "the sweeps of W01",
	"W03": "push targets and options in all shapes; hijack results in all shapes",
	"H01": "every status the builder permits; methods and odd requests; many panic values at 4 places; 15 further error shapes; no hook and the default hook; 50-1500 requests in a row",
	"H02": "the sweeps of H01; contents of 1 MiB to beyond 4 GiB",
	"H03": "every status from 200 to 999 with HTTP/1.0 and 1.1; 10 methods; 24 body sizes in 4 chunkings; 8 further error shapes; 87 header names and up to 200 headers of up to 50 values; request bodies of 7 sizes, chunked or not, ignored, read in part, read, closed or echoed; long request sequences on one connection for every pair of body kinds",
}

// addSweeps is called by main once every property is registered.
func addSweeps() {
	for id, t := range sweeps {
		if p := props[id]; p != nil && t != "" {
			b := map[string]string{"thorough": p.Bounds["thorough"]} // W01 and W02 share a map
			b["quick"] = p.Bounds["quick"] + "; sweeps (both tiers): " + t
			p.Bounds = b
		}
	}
}
