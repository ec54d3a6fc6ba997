package jsrt

// Names of the members that built-in values have in JavaScript. One that this runtime does not model is given up on
// instead of being undefined.
var members = map[string]string{
	"arr":     " at concat copyWithin entries every fill filter find findIndex findLast findLastIndex flat flatMap forEach includes indexOf join keys lastIndexOf length map pop push reduce reduceRight reverse shift slice some sort splice toLocaleString toReversed toSorted toSpliced toString unshift values with ",
	"str":     " anchor at big blink bold charAt charCodeAt codePointAt concat endsWith fixed fontcolor fontsize includes indexOf isWellFormed italics lastIndexOf length link localeCompare match matchAll normalize padEnd padStart repeat replace replaceAll search slice small split startsWith strike sub substr substring sup toLocaleLowerCase toLocaleUpperCase toLowerCase toString toUpperCase toWellFormed trim trimEnd trimLeft trimRight trimStart valueOf ",
	"map":     " clear delete entries forEach get has keys set size values ",
	"set":     " add clear delete difference entries forEach has intersection isDisjointFrom isSubsetOf isSupersetOf keys size symmetricDifference union values ",
	"buf":     " byteLength detached maxByteLength resizable resize slice transfer transferToFixedLength ",
	"u8":      " BYTES_PER_ELEMENT at buffer byteLength byteOffset copyWithin entries every fill filter find findIndex findLast findLastIndex forEach includes indexOf join keys lastIndexOf length map reduce reduceRight reverse set slice some sort subarray toLocaleString toReversed toSorted toString values with ",
	"view":    " buffer byteLength byteOffset getBigInt64 getBigUint64 getFloat32 getFloat64 getInt16 getInt32 getInt8 getUint16 getUint32 getUint8 setBigInt64 setBigUint64 setFloat32 setFloat64 setInt16 setInt32 setInt8 setUint16 setUint32 setUint8 ",
	"promise": " catch finally then ",
	"gen":     " drop every filter find flatMap forEach map next reduce return some take throw toArray ",
	"regex":   " compile dotAll exec flags global hasIndices ignoreCase multiline source sticky test toString unicode unicodeSets ",
	"fn":      " apply arguments bind call caller length name toString ",
	"num":     " toExponential toFixed toLocaleString toPrecision toString valueOf ",
	"obj":     " hasOwnProperty isPrototypeOf propertyIsEnumerable toLocaleString toString valueOf ",
}

// Statics of built-in classes and objects.
var statics = map[string]string{
	"Object":      " assign create defineProperties defineProperty entries freeze fromEntries getOwnPropertyDescriptor getOwnPropertyDescriptors getOwnPropertyNames getOwnPropertySymbols getPrototypeOf groupBy hasOwn is isExtensible isFrozen isSealed keys preventExtensions seal setPrototypeOf values ",
	"Array":       " from fromAsync isArray of ",
	"Number":      " EPSILON MAX_SAFE_INTEGER MAX_VALUE MIN_SAFE_INTEGER MIN_VALUE NEGATIVE_INFINITY NaN POSITIVE_INFINITY isFinite isInteger isNaN isSafeInteger parseFloat parseInt ",
	"String":      " fromCharCode fromCodePoint raw ",
	"Boolean":     "  ",
	"BigInt":      " asIntN asUintN ",
	"Math":        " E LN10 LN2 LOG10E LOG2E PI SQRT1_2 SQRT2 abs acos acosh asin asinh atan atan2 atanh cbrt ceil clz32 cos cosh exp expm1 floor fround hypot imul log log10 log1p log2 max min pow random round sign sin sinh sqrt tan tanh trunc ",
	"JSON":        " isRawJSON parse rawJSON stringify ",
	"Map":         " groupBy ",
	"Set":         "  ",
	"Promise":     " all allSettled any race reject resolve withResolvers ",
	"ArrayBuffer": " isView ",
	"Uint8Array":  " BYTES_PER_ELEMENT ",
	"DataView":    "  ",
	"Symbol":      " asyncDispose asyncIterator dispose for hasInstance isConcatSpreadable iterator keyFor match matchAll replace search species split toPrimitive toStringTag unscopables ",
	"Date":        " UTC now parse ",
	"RegExp":      " $& $' $+ $1 $2 $3 $4 $5 $6 $7 $8 $9 $_ $` input lastMatch lastParen leftContext rightContext ",
	"Error":       " captureStackTrace prepareStackTrace stackTraceLimit ",
}

// Globals of node and browsers.
const globalNames = " AbortController AbortSignal AggregateError Array ArrayBuffer Atomics BigInt BigInt64Array BigUint64Array Blob Boolean BroadcastChannel Buffer ByteLengthQueuingStrategy CompressionStream CountQueuingStrategy Crypto CryptoKey CustomEvent DOMException DataView Date DecompressionStream Error EvalError Event EventTarget File FinalizationRegistry Float32Array Float64Array FormData Function Headers Infinity Int16Array Int32Array Int8Array Intl Iterator JSON Map Math MessageChannel MessageEvent MessagePort NaN Navigator Number Object Performance PerformanceEntry PerformanceMark PerformanceMeasure PerformanceObserver PerformanceObserverEntryList PerformanceResourceTiming Promise Proxy RangeError ReadableByteStreamController ReadableStream ReadableStreamBYOBReader ReadableStreamBYOBRequest ReadableStreamDefaultController ReadableStreamDefaultReader ReferenceError Reflect RegExp Request Response Set SharedArrayBuffer String SubtleCrypto Symbol SyntaxError TextDecoder TextDecoderStream TextEncoder TextEncoderStream TransformStream TransformStreamDefaultController TypeError URIError URL URLSearchParams Uint16Array Uint32Array Uint8Array Uint8ClampedArray WeakMap WeakRef WeakSet WebAssembly WebSocket WritableStream WritableStreamDefaultController WritableStreamDefaultWriter assert async_hooks atob btoa buffer child_process clearImmediate clearInterval clearTimeout cluster console constants crypto decodeURI decodeURIComponent dgram diagnostics_channel dns document domain encodeURI encodeURIComponent escape eval events fetch fs globalThis http http2 https indexedDB inspector isFinite isNaN localStorage location navigator net os parseFloat parseInt path perf_hooks performance process punycode querystring queueMicrotask readline repl self setImmediate setInterval setTimeout stream string_decoder structuredClone sys timers tls trace_events tty undefined unescape url util v8 vm wasi window worker_threads zlib "
