// Code generated by genshim from github.com/labstack/echo; see shim.go for what is replaced.

package echo

import real "github.com/labstack/echo"

type BindUnmarshaler = real.BindUnmarshaler
type Binder = real.Binder

const CONNECT = real.CONNECT

type Context = real.Context

const DELETE = real.DELETE

type DefaultBinder = real.DefaultBinder
type Echo = real.Echo

var ErrBadGateway = real.ErrBadGateway
var ErrBadRequest = real.ErrBadRequest
var ErrCookieNotFound = real.ErrCookieNotFound
var ErrForbidden = real.ErrForbidden
var ErrInternalServerError = real.ErrInternalServerError
var ErrInvalidRedirectCode = real.ErrInvalidRedirectCode
var ErrMethodNotAllowed = real.ErrMethodNotAllowed
var ErrNotFound = real.ErrNotFound
var ErrRendererNotRegistered = real.ErrRendererNotRegistered
var ErrRequestTimeout = real.ErrRequestTimeout
var ErrServiceUnavailable = real.ErrServiceUnavailable
var ErrStatusRequestEntityTooLarge = real.ErrStatusRequestEntityTooLarge
var ErrTooManyRequests = real.ErrTooManyRequests
var ErrUnauthorized = real.ErrUnauthorized
var ErrUnsupportedMediaType = real.ErrUnsupportedMediaType
var ErrValidatorNotRegistered = real.ErrValidatorNotRegistered

const GET = real.GET

type Group = real.Group

const HEAD = real.HEAD

type HTTPError = real.HTTPError
type HTTPErrorHandler = real.HTTPErrorHandler
type HandlerFunc = real.HandlerFunc

const HeaderAccept = real.HeaderAccept
const HeaderAcceptEncoding = real.HeaderAcceptEncoding
const HeaderAccessControlAllowCredentials = real.HeaderAccessControlAllowCredentials
const HeaderAccessControlAllowHeaders = real.HeaderAccessControlAllowHeaders
const HeaderAccessControlAllowMethods = real.HeaderAccessControlAllowMethods
const HeaderAccessControlAllowOrigin = real.HeaderAccessControlAllowOrigin
const HeaderAccessControlExposeHeaders = real.HeaderAccessControlExposeHeaders
const HeaderAccessControlMaxAge = real.HeaderAccessControlMaxAge
const HeaderAccessControlRequestHeaders = real.HeaderAccessControlRequestHeaders
const HeaderAccessControlRequestMethod = real.HeaderAccessControlRequestMethod
const HeaderAllow = real.HeaderAllow
const HeaderAuthorization = real.HeaderAuthorization
const HeaderContentDisposition = real.HeaderContentDisposition
const HeaderContentEncoding = real.HeaderContentEncoding
const HeaderContentLength = real.HeaderContentLength
const HeaderContentSecurityPolicy = real.HeaderContentSecurityPolicy
const HeaderContentType = real.HeaderContentType
const HeaderCookie = real.HeaderCookie
const HeaderIfModifiedSince = real.HeaderIfModifiedSince
const HeaderLastModified = real.HeaderLastModified
const HeaderLocation = real.HeaderLocation
const HeaderOrigin = real.HeaderOrigin
const HeaderServer = real.HeaderServer
const HeaderSetCookie = real.HeaderSetCookie
const HeaderStrictTransportSecurity = real.HeaderStrictTransportSecurity
const HeaderUpgrade = real.HeaderUpgrade
const HeaderVary = real.HeaderVary
const HeaderWWWAuthenticate = real.HeaderWWWAuthenticate
const HeaderXCSRFToken = real.HeaderXCSRFToken
const HeaderXContentTypeOptions = real.HeaderXContentTypeOptions
const HeaderXForwardedFor = real.HeaderXForwardedFor
const HeaderXForwardedProto = real.HeaderXForwardedProto
const HeaderXForwardedProtocol = real.HeaderXForwardedProtocol
const HeaderXForwardedSsl = real.HeaderXForwardedSsl
const HeaderXFrameOptions = real.HeaderXFrameOptions
const HeaderXHTTPMethodOverride = real.HeaderXHTTPMethodOverride
const HeaderXRealIP = real.HeaderXRealIP
const HeaderXRequestID = real.HeaderXRequestID
const HeaderXRequestedWith = real.HeaderXRequestedWith
const HeaderXUrlScheme = real.HeaderXUrlScheme
const HeaderXXSSProtection = real.HeaderXXSSProtection

type Logger = real.Logger

const MIMEApplicationForm = real.MIMEApplicationForm
const MIMEApplicationJSON = real.MIMEApplicationJSON
const MIMEApplicationJSONCharsetUTF8 = real.MIMEApplicationJSONCharsetUTF8
const MIMEApplicationJavaScript = real.MIMEApplicationJavaScript
const MIMEApplicationJavaScriptCharsetUTF8 = real.MIMEApplicationJavaScriptCharsetUTF8
const MIMEApplicationMsgpack = real.MIMEApplicationMsgpack
const MIMEApplicationProtobuf = real.MIMEApplicationProtobuf
const MIMEApplicationXML = real.MIMEApplicationXML
const MIMEApplicationXMLCharsetUTF8 = real.MIMEApplicationXMLCharsetUTF8
const MIMEMultipartForm = real.MIMEMultipartForm
const MIMEOctetStream = real.MIMEOctetStream
const MIMETextHTML = real.MIMETextHTML
const MIMETextHTMLCharsetUTF8 = real.MIMETextHTMLCharsetUTF8
const MIMETextPlain = real.MIMETextPlain
const MIMETextPlainCharsetUTF8 = real.MIMETextPlainCharsetUTF8
const MIMETextXML = real.MIMETextXML
const MIMETextXMLCharsetUTF8 = real.MIMETextXMLCharsetUTF8

type Map = real.Map

var MethodNotAllowedHandler = real.MethodNotAllowedHandler

type MiddlewareFunc = real.MiddlewareFunc

var NewHTTPError = real.NewHTTPError
var NewResponse = real.NewResponse
var NewRouter = real.NewRouter
var NotFoundHandler = real.NotFoundHandler

const OPTIONS = real.OPTIONS
const PATCH = real.PATCH
const POST = real.POST
const PROPFIND = real.PROPFIND
const PUT = real.PUT

type Renderer = real.Renderer
type Response = real.Response
type Route = real.Route
type Router = real.Router

const TRACE = real.TRACE

type Validator = real.Validator

const Version = real.Version

var WrapHandler = real.WrapHandler
var WrapMiddleware = real.WrapMiddleware
