module verif.local/simrt

go 1.19

require github.com/gin-gonic/gin v1.9.1
