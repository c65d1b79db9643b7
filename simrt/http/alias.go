package http

// What needs no simulation: taken from the real package as it is.

import real "net/http"

const (
	DefaultMaxHeaderBytes               = real.DefaultMaxHeaderBytes
	DefaultMaxHeaderValueCount          = real.DefaultMaxHeaderValueCount
	DefaultMaxIdleConnsPerHost          = real.DefaultMaxIdleConnsPerHost
	MethodConnect                       = real.MethodConnect
	MethodDelete                        = real.MethodDelete
	MethodGet                           = real.MethodGet
	MethodHead                          = real.MethodHead
	MethodOptions                       = real.MethodOptions
	MethodPatch                         = real.MethodPatch
	MethodPost                          = real.MethodPost
	MethodPut                           = real.MethodPut
	MethodTrace                         = real.MethodTrace
	SameSiteDefaultMode                 = real.SameSiteDefaultMode
	SameSiteLaxMode                     = real.SameSiteLaxMode
	SameSiteNoneMode                    = real.SameSiteNoneMode
	SameSiteStrictMode                  = real.SameSiteStrictMode
	StateActive                         = real.StateActive
	StateClosed                         = real.StateClosed
	StateHijacked                       = real.StateHijacked
	StateIdle                           = real.StateIdle
	StateNew                            = real.StateNew
	StatusAccepted                      = real.StatusAccepted
	StatusAlreadyReported               = real.StatusAlreadyReported
	StatusBadGateway                    = real.StatusBadGateway
	StatusBadRequest                    = real.StatusBadRequest
	StatusConflict                      = real.StatusConflict
	StatusContinue                      = real.StatusContinue
	StatusCreated                       = real.StatusCreated
	StatusEarlyHints                    = real.StatusEarlyHints
	StatusExpectationFailed             = real.StatusExpectationFailed
	StatusFailedDependency              = real.StatusFailedDependency
	StatusForbidden                     = real.StatusForbidden
	StatusFound                         = real.StatusFound
	StatusGatewayTimeout                = real.StatusGatewayTimeout
	StatusGone                          = real.StatusGone
	StatusHTTPVersionNotSupported       = real.StatusHTTPVersionNotSupported
	StatusIMUsed                        = real.StatusIMUsed
	StatusInsufficientStorage           = real.StatusInsufficientStorage
	StatusInternalServerError           = real.StatusInternalServerError
	StatusLengthRequired                = real.StatusLengthRequired
	StatusLocked                        = real.StatusLocked
	StatusLoopDetected                  = real.StatusLoopDetected
	StatusMethodNotAllowed              = real.StatusMethodNotAllowed
	StatusMisdirectedRequest            = real.StatusMisdirectedRequest
	StatusMovedPermanently              = real.StatusMovedPermanently
	StatusMultiStatus                   = real.StatusMultiStatus
	StatusMultipleChoices               = real.StatusMultipleChoices
	StatusNetworkAuthenticationRequired = real.StatusNetworkAuthenticationRequired
	StatusNoContent                     = real.StatusNoContent
	StatusNonAuthoritativeInfo          = real.StatusNonAuthoritativeInfo
	StatusNotAcceptable                 = real.StatusNotAcceptable
	StatusNotExtended                   = real.StatusNotExtended
	StatusNotFound                      = real.StatusNotFound
	StatusNotImplemented                = real.StatusNotImplemented
	StatusNotModified                   = real.StatusNotModified
	StatusOK                            = real.StatusOK
	StatusPartialContent                = real.StatusPartialContent
	StatusPaymentRequired               = real.StatusPaymentRequired
	StatusPermanentRedirect             = real.StatusPermanentRedirect
	StatusPreconditionFailed            = real.StatusPreconditionFailed
	StatusPreconditionRequired          = real.StatusPreconditionRequired
	StatusProcessing                    = real.StatusProcessing
	StatusProxyAuthRequired             = real.StatusProxyAuthRequired
	StatusRequestEntityTooLarge         = real.StatusRequestEntityTooLarge
	StatusRequestHeaderFieldsTooLarge   = real.StatusRequestHeaderFieldsTooLarge
	StatusRequestTimeout                = real.StatusRequestTimeout
	StatusRequestURITooLong             = real.StatusRequestURITooLong
	StatusRequestedRangeNotSatisfiable  = real.StatusRequestedRangeNotSatisfiable
	StatusResetContent                  = real.StatusResetContent
	StatusSeeOther                      = real.StatusSeeOther
	StatusServiceUnavailable            = real.StatusServiceUnavailable
	StatusSwitchingProtocols            = real.StatusSwitchingProtocols
	StatusTeapot                        = real.StatusTeapot
	StatusTemporaryRedirect             = real.StatusTemporaryRedirect
	StatusTooEarly                      = real.StatusTooEarly
	StatusTooManyRequests               = real.StatusTooManyRequests
	StatusUnauthorized                  = real.StatusUnauthorized
	StatusUnavailableForLegalReasons    = real.StatusUnavailableForLegalReasons
	StatusUnprocessableEntity           = real.StatusUnprocessableEntity
	StatusUnsupportedMediaType          = real.StatusUnsupportedMediaType
	StatusUpgradeRequired               = real.StatusUpgradeRequired
	StatusUseProxy                      = real.StatusUseProxy
	StatusVariantAlsoNegotiates         = real.StatusVariantAlsoNegotiates
	TimeFormat                          = real.TimeFormat
	TrailerPrefix                       = real.TrailerPrefix
)

type (
	Client                = real.Client
	ClientConn            = real.ClientConn
	CloseNotifier         = real.CloseNotifier
	ConnState             = real.ConnState
	Cookie                = real.Cookie
	CookieJar             = real.CookieJar
	CrossOriginProtection = real.CrossOriginProtection
	Dir                   = real.Dir
	File                  = real.File
	FileSystem            = real.FileSystem
	Flusher               = real.Flusher
	HTTP2Config           = real.HTTP2Config
	Handler               = real.Handler
	HandlerFunc           = real.HandlerFunc
	Header                = real.Header
	Hijacker              = real.Hijacker
	MaxBytesError         = real.MaxBytesError
	ProtocolError         = real.ProtocolError
	Protocols             = real.Protocols
	PushOptions           = real.PushOptions
	Pusher                = real.Pusher
	Request               = real.Request
	Response              = real.Response
	ResponseController    = real.ResponseController
	ResponseWriter        = real.ResponseWriter
	RoundTripper          = real.RoundTripper
	SameSite              = real.SameSite
	ServeMux              = real.ServeMux
	Transport             = real.Transport
)

var (
	AllowQuerySemicolons     = real.AllowQuerySemicolons
	CanonicalHeaderKey       = real.CanonicalHeaderKey
	DefaultClient            = real.DefaultClient
	DefaultServeMux          = real.DefaultServeMux
	DefaultTransport         = real.DefaultTransport
	DetectContentType        = real.DetectContentType
	ErrAbortHandler          = real.ErrAbortHandler
	ErrBodyNotAllowed        = real.ErrBodyNotAllowed
	ErrBodyReadAfterClose    = real.ErrBodyReadAfterClose
	ErrContentLength         = real.ErrContentLength
	ErrHandlerTimeout        = real.ErrHandlerTimeout
	ErrHeaderTooLong         = real.ErrHeaderTooLong
	ErrHijacked              = real.ErrHijacked
	ErrLineTooLong           = real.ErrLineTooLong
	ErrMissingBoundary       = real.ErrMissingBoundary
	ErrMissingContentLength  = real.ErrMissingContentLength
	ErrMissingFile           = real.ErrMissingFile
	ErrNoCookie              = real.ErrNoCookie
	ErrNoLocation            = real.ErrNoLocation
	ErrNotMultipart          = real.ErrNotMultipart
	ErrNotSupported          = real.ErrNotSupported
	ErrSchemeMismatch        = real.ErrSchemeMismatch
	ErrServerClosed          = real.ErrServerClosed
	ErrShortBody             = real.ErrShortBody
	ErrSkipAltProtocol       = real.ErrSkipAltProtocol
	ErrUnexpectedTrailer     = real.ErrUnexpectedTrailer
	ErrUseLastResponse       = real.ErrUseLastResponse
	ErrWriteAfterFlush       = real.ErrWriteAfterFlush
	Error                    = real.Error
	FS                       = real.FS
	FileServer               = real.FileServer
	FileServerFS             = real.FileServerFS
	Get                      = real.Get
	Handle                   = real.Handle
	HandleFunc               = real.HandleFunc
	Head                     = real.Head
	LocalAddrContextKey      = real.LocalAddrContextKey
	MaxBytesHandler          = real.MaxBytesHandler
	MaxBytesReader           = real.MaxBytesReader
	NewCrossOriginProtection = real.NewCrossOriginProtection
	NewFileTransport         = real.NewFileTransport
	NewFileTransportFS       = real.NewFileTransportFS
	NewRequest               = real.NewRequest
	NewRequestWithContext    = real.NewRequestWithContext
	NewResponseController    = real.NewResponseController
	NewServeMux              = real.NewServeMux
	NoBody                   = real.NoBody
	NotFound                 = real.NotFound
	NotFoundHandler          = real.NotFoundHandler
	ParseCookie              = real.ParseCookie
	ParseHTTPVersion         = real.ParseHTTPVersion
	ParseSetCookie           = real.ParseSetCookie
	ParseTime                = real.ParseTime
	Post                     = real.Post
	PostForm                 = real.PostForm
	ProxyFromEnvironment     = real.ProxyFromEnvironment
	ProxyURL                 = real.ProxyURL
	ReadRequest              = real.ReadRequest
	ReadResponse             = real.ReadResponse
	Redirect                 = real.Redirect
	RedirectHandler          = real.RedirectHandler
	ServeContent             = real.ServeContent
	ServeFile                = real.ServeFile
	ServeFileFS              = real.ServeFileFS
	ServeTLS                 = real.ServeTLS
	ServerContextKey         = real.ServerContextKey
	SetCookie                = real.SetCookie
	StatusText               = real.StatusText
	StripPrefix              = real.StripPrefix
	TimeoutHandler           = real.TimeoutHandler
)
