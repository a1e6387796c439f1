module verifharness

go 1.26

require (
	github.com/avast/retry-go v3.0.0+incompatible
	github.com/bsm/redislock v0.9.3
	github.com/go-logr/logr v1.2.4
	github.com/go-logr/stdr v1.2.2
	github.com/redis/go-redis/v9 v9.0.5
	github.com/robfig/cron v1.2.0
	github.com/rs/xid v1.5.0
	github.com/stretchr/testify v1.8.3
	gorm.io/datatypes v1.2.0
	gorm.io/driver/mysql v1.5.1
	gorm.io/driver/sqlite v1.5.2
	gorm.io/gorm v1.25.2-0.20230530020048-26663ab9bf55
)

require (
	github.com/cespare/xxhash/v2 v2.2.0 // indirect
	github.com/davecgh/go-spew v1.1.2-0.20180830191138-d8f796af33cc // indirect
	github.com/dgryski/go-rendezvous v0.0.0-20200823014737-9f7001d12a5f // indirect
	github.com/jinzhu/inflection v1.0.0 // indirect
	github.com/jinzhu/now v1.1.5 // indirect
	github.com/kr/pretty v0.1.0 // indirect
	github.com/mattn/go-sqlite3 v1.14.17 // indirect
	github.com/pmezard/go-difflib v1.0.0 // indirect
	gopkg.in/check.v1 v1.0.0-20190902080502-41f04d3bba15 // indirect
	gopkg.in/yaml.v3 v3.0.1 // indirect
)

require (
	github.com/bytedance/dddfirework v0.0.0
	github.com/go-sql-driver/mysql v1.7.0
)

replace github.com/bytedance/dddfirework => /repo
