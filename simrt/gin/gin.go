// Package gin wraps the real gin engine: routing, binding and rendering are real code, only Run is not a
// network listener but hands the engine to the simulator and blocks.
package gin

import (
	"io"
	"net/http"

	"github.com/gin-gonic/gin"

	"verif.local/simrt"
)

type (
	Context        = gin.Context
	H              = gin.H
	HandlerFunc    = gin.HandlerFunc
	HandlersChain  = gin.HandlersChain
	IRouter        = gin.IRouter
	IRoutes        = gin.IRoutes
	RouterGroup    = gin.RouterGroup
	Param          = gin.Param
	Params         = gin.Params
	RouteInfo      = gin.RouteInfo
	RoutesInfo     = gin.RoutesInfo
	Error          = gin.Error
	ResponseWriter = gin.ResponseWriter
	Accounts       = gin.Accounts
)

const (
	DebugMode   = gin.DebugMode
	ReleaseMode = gin.ReleaseMode
	TestMode    = gin.TestMode
	MIMEJSON    = gin.MIMEJSON
	MIMEPlain   = gin.MIMEPlain
	MIMEHTML    = gin.MIMEHTML
)

var (
	DefaultWriter      io.Writer = io.Discard
	DefaultErrorWriter io.Writer = io.Discard
)

func init() {
	gin.DefaultWriter = io.Discard
	gin.DefaultErrorWriter = io.Discard
}

type Engine struct{ *gin.Engine }

func SetMode(m string) { gin.SetMode(gin.ReleaseMode) }
func Mode() string     { return gin.Mode() }

func New() *Engine {
	gin.SetMode(gin.ReleaseMode)
	return &Engine{gin.New()}
}
func Default() *Engine {
	e := New()
	e.Use(Recovery())
	return e
}
func Logger() HandlerFunc { return func(c *Context) {} }
func Recovery() HandlerFunc {
	return func(c *Context) {
		defer func() {
			if r := recover(); r != nil {
				simrt.Recover(r)
				simrt.S.Event("handler-panic", r)
				c.AbortWithStatus(http.StatusInternalServerError)
			}
		}()
		c.Next()
	}
}
func WrapF(f http.HandlerFunc) HandlerFunc { return gin.WrapF(f) }
func WrapH(h http.Handler) HandlerFunc     { return gin.WrapH(h) }

// Listening is called with the handler once a simulated process serves; it blocks for ever.
func serve(h http.Handler) error {
	s := simrt.S
	if f, ok := s.RT["serve"].(func(http.Handler)); ok {
		f(h)
	}
	simrt.BlockForever()
	return nil
}

func (e *Engine) Run(addr ...string) error       { return serve(e.Engine) }
func (e *Engine) RunTLS(addr, c, k string) error { return serve(e.Engine) }
func (e *Engine) RunUnix(f string) error         { return serve(e.Engine) }
