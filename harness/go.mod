module verif/harness

go 1.23

require (
	github.com/go-ego/riot v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/AndreasBriese/bbloom v0.0.0-20190825152654-46b345b51c96 // indirect
	github.com/cespare/xxhash v1.1.0 // indirect
	github.com/coreos/etcd v3.3.10+incompatible // indirect
	github.com/dgraph-io/badger v1.6.1 // indirect
	github.com/dgraph-io/ristretto v0.0.2 // indirect
	github.com/dustin/go-humanize v1.0.0 // indirect
	github.com/fsnotify/fsnotify v1.4.9 // indirect
	github.com/go-ego/cedar v0.10.0 // indirect
	github.com/go-ego/gpy v0.31.0 // indirect
	github.com/go-ego/gse v0.50.3 // indirect
	github.com/go-ego/murmur v0.10.0 // indirect
	github.com/go-vgo/grpclb v0.0.0-20181128171039-89526b0a742e // indirect
	github.com/go-vgo/gt/conf v0.0.0-20200606140533-a397c46789df // indirect
	github.com/go-vgo/gt/info v0.0.0-20200606140533-a397c46789df // indirect
	github.com/go-vgo/zlog v0.0.0-20200606142114-9aade0d23ce3 // indirect
	github.com/gogo/protobuf v1.2.1 // indirect
	github.com/golang/protobuf v1.4.2 // indirect
	github.com/golang/snappy v0.0.1 // indirect
	github.com/pelletier/go-toml v1.8.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/shirou/gopsutil v2.20.5+incompatible // indirect
	github.com/syndtr/goleveldb v1.0.0 // indirect
	go.etcd.io/bbolt v1.3.4 // indirect
	go.etcd.io/etcd v3.3.10+incompatible // indirect
	go.uber.org/atomic v1.4.0 // indirect
	go.uber.org/multierr v1.1.0 // indirect
	go.uber.org/zap v1.10.0 // indirect
	golang.org/x/net v0.0.0-20200602114024-627f9648deb9 // indirect
	golang.org/x/sys v0.0.0-20200610111108-226ff32320da // indirect
	golang.org/x/text v0.3.2 // indirect
	google.golang.org/genproto v0.0.0-20200526211855-cb27e3aa2013 // indirect
	google.golang.org/grpc v1.27.0 // indirect
	google.golang.org/protobuf v1.24.0 // indirect
	gopkg.in/natefinch/lumberjack.v2 v2.0.0 // indirect
)

replace github.com/go-ego/riot => /repo

replace github.com/go-vgo/gt/info => ./stub/gtinfo
