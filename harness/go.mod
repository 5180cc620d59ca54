module verif/harness

go 1.23.0

require (
	github.com/Tom5521/gotext-tools/v2 v2.0.0
	github.com/paul-mannino/go-fuzzywuzzy v0.0.0-20241117160931-a1769aeb6b21
)

require (
	github.com/alecthomas/participle/v2 v2.1.4 // indirect
	github.com/kr/fs v0.1.0 // indirect
	github.com/rogpeppe/go-internal v1.9.1-0.20230322174110-50a14409f175 // indirect
	github.com/sanity-io/litter v1.5.8 // indirect
	github.com/xo/terminfo v0.0.0-20220910002029-abceb7e1c41e // indirect
	golang.org/x/sys v0.30.0 // indirect
)

replace github.com/Tom5521/gotext-tools/v2 => /repo
