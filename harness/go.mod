module gredisverif

go 1.25

require gRedis v0.0.0

replace gRedis => /repo
