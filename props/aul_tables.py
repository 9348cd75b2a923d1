"""Values and their names, as in the documents on the format."""

DARWIN_ERRORS = {-1: 'Restart syscall',
 -2: "Don't modify regs, just return",
 -5: 'Restart lookup under heavy vnode pressure/recycling',
 -6: 'Red drive open',
 -7: 'Keep looking',
 -8: 'Data less',
 0: 'Success',
 1: 'Operation not permitted',
 2: 'No such file or directory',
 3: 'No such process',
 4: 'Interrupted system call',
 5: 'Input/Output error',
 6: 'Device not configured',
 7: 'Argument list too long',
 8: 'Exec format error',
 9: 'Bad file descriptor',
 10: 'No child processes',
 11: 'Resource deadlock avoided',
 12: 'Cannot allocate memory',
 13: 'Permission denied',
 14: 'Bad address',
 15: 'Block device required',
 16: 'Device / Resource busy',
 17: 'File exists',
 18: 'Cross-device link',
 19: 'Operation not supported by device',
 20: 'Not a directory',
 21: 'Is a directory',
 22: 'Invalid argument',
 23: 'Too many open files in system',
 24: 'Too many open files',
 25: 'Inappropriate ioctl for devices',
 26: 'Text file busy',
 27: 'File too large',
 28: 'No space left on device',
 29: 'Illegal seek',
 30: 'Read-only filesystem',
 31: 'Too many links',
 32: 'Broken pipe',
 33: 'Numerical argument out of domain',
 34: 'Result too large',
 35: 'Resource temporarily unavailable, operation would block',
 36: 'Operation now in progress',
 37: 'Operation already in progress',
 38: 'Socket operation on non-socket',
 39: 'Destination address required',
 40: 'Message too long',
 41: 'Protocol wrong type for socket',
 42: 'Protocol not available',
 43: 'Protocol not supported',
 44: 'Socket type not supported',
 45: 'Operation not supported, Operation not supported on socket',
 46: 'Protocol family not supported',
 47: 'Address family not supported by protocol family',
 48: 'Address already in use',
 49: "Can't assign requested address",
 50: 'Network is down',
 51: 'Network is unreachable',
 52: 'Network dropped connection on reset',
 53: 'Software caused connection abort',
 54: 'Connection reset by peer',
 55: 'No buffer space available',
 56: 'Socket is already connected',
 57: 'Socket is not connected',
 58: "Can't send after socket shutdown",
 59: "Too many references: can't splice",
 60: 'Operation timed out',
 61: 'Connection refused',
 62: 'Too many levels of symbolic links',
 63: 'File name too long',
 64: 'Host is down',
 65: 'No route to host',
 66: 'Directory not empty',
 67: 'Too many processes',
 68: 'Too many users',
 69: 'Disc quota exceeded',
 70: 'Stale NFS file handle',
 71: 'Too many levels of remote in path',
 72: 'RPC struct is bad',
 73: 'RPC version wrong',
 74: 'RPC prog. not avail',
 75: 'Program version wrong',
 76: 'Bad procedure for program',
 77: 'No locks available',
 78: 'Function not implemented',
 79: 'Inappropriate file type or format',
 80: 'Authentication error',
 81: 'Need authenticator',
 82: 'Device power is off',
 83: 'Device error, e.g. paper out',
 84: 'Value too large to be stored in data type',
 85: 'Bad executable',
 86: 'Bad CPU type in executable',
 87: 'Shared library version mismatch',
 88: 'Malformed Macho file',
 89: 'Operation canceled',
 90: 'Identifier removed',
 91: 'No message of desired type',
 92: 'Illegal byte sequence',
 93: 'Attribute not found',
 94: 'Bad message',
 95: 'Reserved',
 96: 'No message available on STREAM',
 97: 'Reserved',
 98: 'No STREAM resources',
 99: 'Not a STREAM',
 100: 'Protocol error',
 101: 'STREAM ioctl timeout',
 102: 'Operation not supported on socket',
 103: 'No such policy registered',
 104: 'State not recoverable',
 105: 'Previous owner died',
 106: 'Interface output queue is full, Must be equal largest errno'}

AUTHORIZATION = {0: 'Not Determined',
 1: 'Restricted',
 2: 'Denied',
 3: 'Authorized Always',
 4: 'Authorized When In Use'}

SQLITE_RESULTS = {0: 'SQLITE_OK',
 1: 'SQLITE_ERROR',
 2: 'SQLITE_INTERNAL',
 3: 'SQLITE_PERM',
 4: 'SQLITE_ABORT',
 5: 'SQLITE_BUSY',
 6: 'SQLITE_LOCKED',
 7: 'SQLITE_NOMEM',
 8: 'SQLITE_READONLY',
 9: 'SQLITE_INTERRUPT',
 10: 'SQLITE_IOERR',
 11: 'SQLITE_CORRUPT',
 12: 'SQLITE_NOTFOUND',
 13: 'SQLITE_FULL',
 14: 'SQLITE_CANTOPEN',
 15: 'SQLITE_PROTOCOL',
 16: 'SQLITE_EMPTY',
 17: 'SQLITE_SCHEMA',
 18: 'SQLITE_TOOBIG',
 19: 'SQLITE_CONSTRAINT',
 20: 'SQLITE_MISMATCH',
 21: 'SQLITE_MISUSE',
 22: 'SQLITE_NOLFS',
 23: 'SQLITE_AUTH',
 24: 'SQLITE_FORMAT',
 25: 'SQLITE_RANGE',
 26: 'SQLITE_NOTADB',
 27: 'SQLITE_NOTICE',
 28: 'SQLITE_WARNING',
 100: 'SQLITE_ROW',
 101: 'SQLITE_DONE',
 266: 'SQLITE IO ERR READ'}

DNS_RESPONSES = ['NoError',
 'FormErr',
 'ServFail',
 'NXDomain',
 'NotImp',
 'Refused',
 'YXDomain',
 'YXRRSet',
 'NXRRSet',
 'NotAuth',
 'NotZone',
 'DSOTypeNI']

MDNS_REASONS = {1: 'no-data',
 2: 'nxdomain',
 3: 'query-suppressed',
 4: 'no-dns-service',
 5: 'server error'}

RECORD_TYPES = {1: 'A',
 2: 'NS',
 5: 'CNAME',
 6: 'SOA',
 12: 'PTR',
 13: 'HINFO',
 15: 'MX',
 16: 'TXT',
 17: 'RP',
 18: 'AFSDB',
 24: 'SIG',
 25: 'KEY',
 28: 'AAAA',
 29: 'LOC',
 33: 'SRV',
 35: 'NAPTR',
 36: 'KX',
 37: 'CERT',
 39: 'DNAME',
 42: 'APL',
 43: 'DS',
 44: 'SSHFP',
 45: 'IPSECKEY',
 46: 'RRSIG',
 47: 'NSEC',
 48: 'DNSKEY',
 49: 'DHCID',
 50: 'NSEC3',
 51: 'NSEC3PARAM',
 52: 'TLSA',
 53: 'SMIMEA',
 55: 'HIP',
 59: 'CDS',
 60: 'CDNSKEY',
 61: 'OPENPGPKEY',
 62: 'CSYNC',
 63: 'ZONEMD',
 64: 'SVCB',
 65: 'HTTPS',
 108: 'EUI48',
 109: 'EUI64',
 249: 'TKEY',
 250: 'TSIG',
 256: 'URI',
 257: 'CAA',
 32768: 'TA',
 32769: 'DLV'}

MEMBERSHIP_TYPES = {0: 'UID',
 1: 'GID',
 3: 'SID',
 4: 'Username',
 5: 'Groupname',
 6: 'UUID',
 7: 'GROUP NFS',
 8: 'USER NFS',
 10: 'GSS EXPORT NAME',
 11: 'X509 DN',
 12: 'KERBEROS'}

DIRECTORY_ERRORS = {0: 'ODNoError',
 2: 'Not Found',
 1000: 'ODErrorSessionLocalOnlyDaemonInUse',
 1001: 'ODErrorSessionNormalDaemonInUse',
 1002: 'ODErrorSessionDaemonNotRunning',
 1003: 'ODErrorSessionDaemonRefused',
 1100: 'ODErrorSessionProxyCommunicationError',
 1101: 'ODErrorSessionProxyVersionMismatch',
 1102: 'ODErrorSessionProxyIPUnreachable',
 1103: 'ODErrorSessionProxyUnknownHost',
 2000: 'ODErrorNodeUnknownName',
 2001: 'ODErrorNodeUnknownType',
 2002: 'ODErrorNodeDisabled',
 2100: 'ODErrorNodeConnectionFailed',
 2200: 'ODErrorNodeUnknownHost',
 3000: 'ODErrorQuerySynchronize',
 3100: 'ODErrorQueryInvalidMatchType',
 3101: 'ODErrorQueryUnsupportedMatchType',
 3102: 'ODErrorQueryTimeout',
 4000: 'ODErrorRecordReadOnlyNode',
 4001: 'ODErrorRecordPermissionError',
 4100: 'ODErrorRecordParameterError',
 4101: 'ODErrorRecordInvalidType',
 4102: 'ODErrorRecordAlreadyExists',
 4103: 'ODErrorRecordTypeDisabled',
 4104: 'ODErrorRecordNoLongerExists',
 4200: 'ODErrorRecordAttributeUnknownType',
 4201: 'ODErrorRecordAttributeNotFound',
 4202: 'ODErrorRecordAttributeValueSchemaError',
 4203: 'ODErrorRecordAttributeValueNotFound',
 5000: 'ODErrorCredentialsInvalid',
 5001: 'ODErrorCredentialsInvalidComputer',
 5100: 'ODErrorCredentialsMethodNotSupported',
 5101: 'ODErrorCredentialsNotAuthorized',
 5102: 'ODErrorCredentialsParameterError',
 5103: 'ODErrorCredentialsOperationFailed',
 5200: 'ODErrorCredentialsServerUnreachable',
 5201: 'ODErrorCredentialsServerNotFound',
 5202: 'ODErrorCredentialsServerError',
 5203: 'ODErrorCredentialsServerTimeout',
 5204: 'ODErrorCredentialsContactPrimary',
 5205: 'ODErrorCredentialsServerCommunicationError',
 5300: 'ODErrorCredentialsAccountNotFound',
 5301: 'ODErrorCredentialsAccountDisabled',
 5302: 'ODErrorCredentialsAccountExpired',
 5303: 'ODErrorCredentialsAccountInactive',
 5304: 'ODErrorCredentialsAccountTemporarilyLocked',
 5305: 'ODErrorCredentialsAccountLocked',
 5400: 'ODErrorCredentialsPasswordExpired',
 5401: 'ODErrorCredentialsPasswordChangeRequired',
 5402: 'ODErrorCredentialsPasswordQualityFailed',
 5403: 'ODErrorCredentialsPasswordTooShort',
 5404: 'ODErrorCredentialsPasswordTooLong',
 5405: 'ODErrorCredentialsPasswordNeedsLetter',
 5406: 'ODErrorCredentialsPasswordNeedsDigit',
 5407: 'ODErrorCredentialsPasswordChangeTooSoon',
 5408: 'ODErrorCredentialsPasswordUnrecoverable',
 5500: 'ODErrorCredentialsInvalidLogonHours',
 6000: 'ODErrorPolicyUnsupported',
 6001: 'ODErrorPolicyOutOfRange',
 10000: 'ODErrorPluginOperationNotSupported',
 10001: 'ODErrorPluginError',
 10002: 'ODErrorDaemonError',
 10003: 'ODErrorPluginOperationTimeout'}

LOCATION_MANAGER = {'distanceFilter': (0, 'float'),
 'desiredAccuracy': (8, 'float'),
 'updatingLocation': (16, 'bool'),
 'requestingLocation': (17, 'bool'),
 'requestingRanging': (18, 'bool'),
 'updatingRanging': (19, 'bool'),
 'updatingHeading': (20, 'bool'),
 'headingFilter': (24, 'float'),
 'allowsLocationPrompts': (32, 'bool'),
 'allowsAlteredAccessoryLoctions': (33, 'bool'),
 'dynamicAccuracyReductionEnabled': (34, 'bool'),
 'previousAuthorizationStatusValid': (35, 'bool'),
 'previousAuthorizationStatus': (36, 'u4'),
 'limitsPrecision': (40, 'bool'),
 'activityType': (48, 'i8'),
 'pausesLocationUpdatesAutomatially': (56, 'i4'),
 'paused': (60, 'bool'),
 'allowsBackgroundLocationUpdates': (61, 'bool'),
 'showsBackgroundLocationIndicator': (62, 'bool'),
 'allowsMapCorrection': (63, 'bool'),
 'batchingLocation': (64, 'bool'),
 'updatingVehicleSpeed': (65, 'bool'),
 'updatingVehicleHeading': (66, 'bool'),
 'matchInfoEnabled': (67, 'bool'),
 'groundAltitudeEnabled': (68, 'bool'),
 'fusionInfoEnabled': (69, 'bool'),
 'courtesyPromptNeeded': (70, 'bool'),
 'isAuthorizedForWidgetUpdates': (71, 'bool')}

LOCATION_ORDER = ['previousAuthorizationStatusValid',
 'paused',
 'requestingLocation',
 'updatingVehicleSpeed',
 'desiredAccuracy',
 'allowsBackgroundLocationUpdates',
 'dynamicAccuracyReductionEnabled',
 'distanceFilter',
 'allowsLocationPrompts',
 'activityType',
 'groundAltitudeEnabled',
 'pausesLocationUpdatesAutomatially',
 'fusionInfoEnabled',
 'isAuthorizedForWidgetUpdates',
 'updatingVehicleHeading',
 'batchingLocation',
 'showsBackgroundLocationIndicator',
 'updatingLocation',
 'requestingRanging',
 'updatingHeading',
 'previousAuthorizationStatus',
 'allowsMapCorrection',
 'matchInfoEnabled',
 'allowsAlteredAccessoryLoctions',
 'updatingRanging',
 'limitsPrecision',
 'courtesyPromptNeeded',
 'headingFilter']
