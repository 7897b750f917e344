// Code generated by aliasgen. DO NOT EDIT.

package xtls

import std "crypto/tls"

type AlertError = std.AlertError
type Certificate = std.Certificate
type CertificateRequestInfo = std.CertificateRequestInfo
type CertificateVerificationError = std.CertificateVerificationError
type CipherSuite = std.CipherSuite

var CipherSuiteName = std.CipherSuiteName
var CipherSuites = std.CipherSuites

type ClientAuthType = std.ClientAuthType
type ClientHelloInfo = std.ClientHelloInfo
type ClientSessionCache = std.ClientSessionCache
type ClientSessionState = std.ClientSessionState
type Config = std.Config
type ConnectionState = std.ConnectionState
type CurveID = std.CurveID

const CurveP256 = std.CurveP256
const CurveP384 = std.CurveP384
const CurveP521 = std.CurveP521
const ECDSAWithP256AndSHA256 = std.ECDSAWithP256AndSHA256
const ECDSAWithP384AndSHA384 = std.ECDSAWithP384AndSHA384
const ECDSAWithP521AndSHA512 = std.ECDSAWithP521AndSHA512
const ECDSAWithSHA1 = std.ECDSAWithSHA1

type ECHRejectionError = std.ECHRejectionError

const Ed25519 = std.Ed25519

var InsecureCipherSuites = std.InsecureCipherSuites
var NewLRUClientSessionCache = std.NewLRUClientSessionCache
var NewResumptionState = std.NewResumptionState

const NoClientCert = std.NoClientCert
const PKCS1WithSHA1 = std.PKCS1WithSHA1
const PKCS1WithSHA256 = std.PKCS1WithSHA256
const PKCS1WithSHA384 = std.PKCS1WithSHA384
const PKCS1WithSHA512 = std.PKCS1WithSHA512
const PSSWithSHA256 = std.PSSWithSHA256
const PSSWithSHA384 = std.PSSWithSHA384
const PSSWithSHA512 = std.PSSWithSHA512

var ParseSessionState = std.ParseSessionState
var QUICClient = std.QUICClient

type QUICConfig = std.QUICConfig
type QUICConn = std.QUICConn
type QUICEncryptionLevel = std.QUICEncryptionLevel

const QUICEncryptionLevelApplication = std.QUICEncryptionLevelApplication
const QUICEncryptionLevelEarly = std.QUICEncryptionLevelEarly
const QUICEncryptionLevelHandshake = std.QUICEncryptionLevelHandshake
const QUICEncryptionLevelInitial = std.QUICEncryptionLevelInitial

type QUICEvent = std.QUICEvent
type QUICEventKind = std.QUICEventKind

const QUICHandshakeDone = std.QUICHandshakeDone
const QUICNoEvent = std.QUICNoEvent
const QUICRejectedEarlyData = std.QUICRejectedEarlyData
const QUICResumeSession = std.QUICResumeSession

var QUICServer = std.QUICServer

type QUICSessionTicketOptions = std.QUICSessionTicketOptions

const QUICSetReadSecret = std.QUICSetReadSecret
const QUICSetWriteSecret = std.QUICSetWriteSecret
const QUICStoreSession = std.QUICStoreSession
const QUICTransportParameters = std.QUICTransportParameters
const QUICTransportParametersRequired = std.QUICTransportParametersRequired
const QUICWriteData = std.QUICWriteData

type RecordHeaderError = std.RecordHeaderError

const RenegotiateFreelyAsClient = std.RenegotiateFreelyAsClient
const RenegotiateNever = std.RenegotiateNever
const RenegotiateOnceAsClient = std.RenegotiateOnceAsClient

type RenegotiationSupport = std.RenegotiationSupport

const RequestClientCert = std.RequestClientCert
const RequireAndVerifyClientCert = std.RequireAndVerifyClientCert
const RequireAnyClientCert = std.RequireAnyClientCert

type SessionState = std.SessionState
type SignatureScheme = std.SignatureScheme

const TLS_AES_128_GCM_SHA256 = std.TLS_AES_128_GCM_SHA256
const TLS_AES_256_GCM_SHA384 = std.TLS_AES_256_GCM_SHA384
const TLS_CHACHA20_POLY1305_SHA256 = std.TLS_CHACHA20_POLY1305_SHA256
const TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA = std.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA
const TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256 = std.TLS_ECDHE_ECDSA_WITH_AES_128_CBC_SHA256
const TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256 = std.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256
const TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA = std.TLS_ECDHE_ECDSA_WITH_AES_256_CBC_SHA
const TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384 = std.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384
const TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305 = std.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305
const TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256 = std.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256
const TLS_ECDHE_ECDSA_WITH_RC4_128_SHA = std.TLS_ECDHE_ECDSA_WITH_RC4_128_SHA
const TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA = std.TLS_ECDHE_RSA_WITH_3DES_EDE_CBC_SHA
const TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA = std.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA
const TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256 = std.TLS_ECDHE_RSA_WITH_AES_128_CBC_SHA256
const TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256 = std.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256
const TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA = std.TLS_ECDHE_RSA_WITH_AES_256_CBC_SHA
const TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384 = std.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384
const TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305 = std.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305
const TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256 = std.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256
const TLS_ECDHE_RSA_WITH_RC4_128_SHA = std.TLS_ECDHE_RSA_WITH_RC4_128_SHA
const TLS_FALLBACK_SCSV = std.TLS_FALLBACK_SCSV
const TLS_RSA_WITH_3DES_EDE_CBC_SHA = std.TLS_RSA_WITH_3DES_EDE_CBC_SHA
const TLS_RSA_WITH_AES_128_CBC_SHA = std.TLS_RSA_WITH_AES_128_CBC_SHA
const TLS_RSA_WITH_AES_128_CBC_SHA256 = std.TLS_RSA_WITH_AES_128_CBC_SHA256
const TLS_RSA_WITH_AES_128_GCM_SHA256 = std.TLS_RSA_WITH_AES_128_GCM_SHA256
const TLS_RSA_WITH_AES_256_CBC_SHA = std.TLS_RSA_WITH_AES_256_CBC_SHA
const TLS_RSA_WITH_AES_256_GCM_SHA384 = std.TLS_RSA_WITH_AES_256_GCM_SHA384
const TLS_RSA_WITH_RC4_128_SHA = std.TLS_RSA_WITH_RC4_128_SHA
const VerifyClientCertIfGiven = std.VerifyClientCertIfGiven

var VersionName = std.VersionName

const VersionSSL30 = std.VersionSSL30
const VersionTLS10 = std.VersionTLS10
const VersionTLS11 = std.VersionTLS11
const VersionTLS12 = std.VersionTLS12
const VersionTLS13 = std.VersionTLS13
const X25519 = std.X25519
