module verif

go 1.24

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/leftmike/maho v0.0.0
	maho.other/b v0.0.0
	verifsim v0.0.0
)

require github.com/google/btree v1.1.2 // indirect

replace github.com/leftmike/maho => ./.build/maho

replace verifsim => ./simkit

replace maho.other/b => ./.build/mahob
