module verif/mon

go 1.25

require (
	github.com/apparentlymart/go-textseg/autoversion v0.0.0
	github.com/apparentlymart/go-textseg/v15 v15.0.0
	github.com/apparentlymart/go-textseg/v17 v17.0.0
)

replace github.com/apparentlymart/go-textseg/v17 => /repo

replace github.com/apparentlymart/go-textseg/autoversion => /repo/autoversion
