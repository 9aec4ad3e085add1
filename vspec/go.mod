module vspec

go 1.25

require (
	entgo.io/ent v0.14.5
	github.com/huandu/xstrings v1.5.0
	github.com/wenerme/go-miniquery v0.0.0
	gorm.io/gorm v1.31.1
)

require (
	github.com/google/uuid v1.6.0 // indirect
	github.com/jinzhu/inflection v1.0.0 // indirect
	github.com/jinzhu/now v1.1.5 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	golang.org/x/text v0.31.0 // indirect
)

replace github.com/wenerme/go-miniquery => /repo
