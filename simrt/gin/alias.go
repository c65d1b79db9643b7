package gin

// What needs no simulation: taken from the real package as it is.

import real "github.com/gin-gonic/gin"

const (
	AuthUserKey             = real.AuthUserKey
	BindKey                 = real.BindKey
	BodyBytesKey            = real.BodyBytesKey
	ContextKey              = real.ContextKey
	EnvGinMode              = real.EnvGinMode
	ErrorTypeAny            = real.ErrorTypeAny
	ErrorTypeBind           = real.ErrorTypeBind
	ErrorTypeNu             = real.ErrorTypeNu
	ErrorTypePrivate        = real.ErrorTypePrivate
	ErrorTypePublic         = real.ErrorTypePublic
	ErrorTypeRender         = real.ErrorTypeRender
	MIMEMultipartPOSTForm   = real.MIMEMultipartPOSTForm
	MIMEPOSTForm            = real.MIMEPOSTForm
	MIMETOML                = real.MIMETOML
	MIMEXML                 = real.MIMEXML
	MIMEXML2                = real.MIMEXML2
	MIMEYAML                = real.MIMEYAML
	PlatformCloudflare      = real.PlatformCloudflare
	PlatformGoogleAppEngine = real.PlatformGoogleAppEngine
	Version                 = real.Version
)

type (
	ErrorType          = real.ErrorType
	LogFormatter       = real.LogFormatter
	LogFormatterParams = real.LogFormatterParams
	LoggerConfig       = real.LoggerConfig
	Negotiate          = real.Negotiate
	RecoveryFunc       = real.RecoveryFunc
)

var (
	BasicAuth                              = real.BasicAuth
	BasicAuthForRealm                      = real.BasicAuthForRealm
	Bind                                   = real.Bind
	DebugPrintRouteFunc                    = real.DebugPrintRouteFunc
	Dir                                    = real.Dir
	DisableBindValidation                  = real.DisableBindValidation
	DisableConsoleColor                    = real.DisableConsoleColor
	EnableJsonDecoderDisallowUnknownFields = real.EnableJsonDecoderDisallowUnknownFields
	EnableJsonDecoderUseNumber             = real.EnableJsonDecoderUseNumber
	ErrorLogger                            = real.ErrorLogger
	ErrorLoggerT                           = real.ErrorLoggerT
	ForceConsoleColor                      = real.ForceConsoleColor
	IsDebugging                            = real.IsDebugging
	LoggerWithFormatter                    = real.LoggerWithFormatter
	LoggerWithWriter                       = real.LoggerWithWriter
)
