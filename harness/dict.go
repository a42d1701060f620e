package main

// Names that real stylesheets use. Some of them are treated specially by compilers.

import "strings"

var properties = strings.Fields(`
align-content align-items align-self all animation animation-delay animation-direction animation-duration animation-fill-mode animation-iteration-count animation-name animation-play-state animation-timing-function appearance aspect-ratio
backdrop-filter backface-visibility background background-attachment background-blend-mode background-clip background-color background-image background-origin background-position background-position-x background-position-y background-repeat background-size behavior block-size border border-block border-bottom border-bottom-color border-bottom-left-radius border-collapse border-color border-image border-image-slice border-image-source border-left border-left-width border-radius border-right border-spacing border-style border-top border-top-style border-width bottom box-decoration-break box-shadow box-sizing break-after
caption-side caret-color clear clip clip-path color color-scheme column-count column-gap column-rule column-width columns composes contain container container-type content counter-increment counter-reset cursor direction display empty-cells fill fill-opacity filter flex flex-basis flex-direction flex-flow flex-grow flex-shrink flex-wrap float font font-display font-family font-feature-settings font-kerning font-size font-size-adjust font-stretch font-style font-variant font-variation-settings font-weight
gap grid grid-area grid-auto-columns grid-auto-flow grid-column grid-column-start grid-gap grid-row grid-template grid-template-areas grid-template-columns grid-template-rows height hyphens image-rendering inline-size inset isolation justify-content justify-items justify-self left letter-spacing line-height list-style list-style-image list-style-type margin margin-block margin-bottom margin-inline-start margin-left margin-right margin-top marker-mid mask mask-image max-height max-width min-height min-width mix-blend-mode
object-fit object-position offset-path opacity order orphans outline outline-offset overflow overflow-wrap overflow-x overscroll-behavior padding padding-bottom padding-inline padding-left padding-right padding-top page page-break-after perspective place-content place-items pointer-events position quotes resize right rotate row-gap scale scroll-behavior scroll-snap-type scrollbar-color shape-outside size speak src stroke stroke-dasharray stroke-width syntax system symbols suffix
tab-size table-layout text-align text-decoration text-indent text-overflow text-shadow text-transform text-underline-offset top touch-action transform transform-origin transform-style transition transition-delay transition-duration transition-property transition-timing-function translate unicode-bidi unicode-range user-select vertical-align visibility white-space widows width will-change word-break word-spacing word-wrap writing-mode z-index zoom
-webkit-appearance -webkit-box-flex -webkit-line-clamp -webkit-tap-highlight-color -webkit-transform -webkit-text-fill-color -moz-osx-font-smoothing -moz-appearance -ms-filter -ms-grid-columns -o-object-fit --color --Color --a-b --x1 --é COLOR Background-Color`)

var unitNames = strings.Fields("px em rem ex ch cap ic lh rlh vw vh vi vb vmin vmax svw lvh dvh cqw cqmin cm mm Q in pt pc deg grad rad turn s ms Hz kHz dpi dpcm dppx x fr % PX Em n e E ex-x -x _x é \\70x \\31z 0 db st")

var numbers = strings.Fields("0 -0 +0 0.0 .0 00 01 1 -1 +1 10 1.0 1.50 .5 +.5 -.5 0.5 -0.5 00.5 5.0e0 1e0 1e1 1E1 1e+1 1e-1 1.5e10 0e0 123456789 12345678901234567890 0.1 0.30000000000000004 .00000001 1e400 3.14159265358979 255 256 100 400 1.00 1.500 1.5000 .100 0.000 1.00e2 1.0e-2 100.00 0.010 2 3 10.0 50 1000 0.50 -1.00 -.0 1e-0 99.999 0.05 00.00")

var functions = strings.Fields(`
abs acos annotation anchor asin atan attr blur brightness calc-size character-variant circle clamp color color-mix conic-gradient contrast cos counter counters cross-fade cubic-bezier device-cmyk drop-shadow element ellipse env exp fit-content format grayscale hsl hsla hue-rotate hwb hypot image image-set inset invert lab layer lch leader linear linear-gradient local log matrix matrix3d max min minmax mod oklab oklch opacity paint path perspective polygon pow radial-gradient rect rem repeat repeating-linear-gradient rgb rgba rotate rotate3d round saturate scale scale3d selector sepia sign sin skew sqrt steps stylistic supports swash symbols tan target-counter tech translate translate3d translateX type url-prefix var view xywh
-webkit-calc -moz-calc -webkit-gradient -moz-element expression alpha RGB Linear-Gradient`)

var pseudoClasses = strings.Fields(`
active autofill blank checked current default defined disabled empty enabled first first-child first-of-type focus focus-visible focus-within fullscreen future hover in-range indeterminate invalid last-child last-of-type left link local-link modal only-child only-of-type open optional out-of-range past paused picture-in-picture placeholder-shown playing popover-open read-only read-write required right root scope target target-within user-invalid valid visited any-link host
-webkit-any-link -moz-any-link -moz-focusring -ms-input-placeholder -webkit-autofill HOVER First-Child before after first-line first-letter`)

var pseudoElements = strings.Fields(`
after backdrop before cue details-content file-selector-button first-letter first-line grammar-error highlight marker part placeholder selection slotted spelling-error target-text view-transition
-webkit-scrollbar -webkit-input-placeholder -moz-placeholder -ms-clear -webkit-slider-thumb -moz-range-track BEFORE any-link link hover`)

var pseudoFunctions = strings.Fields(`
not is where has matches any -webkit-any -moz-any host host-context dir lang current nth-child nth-last-child nth-of-type nth-last-of-type state slotted part cue highlight any-link global local NOT Is`)

var tagNames = strings.Fields("a abbr b body button dialog div em from to fieldset form h1 html i iframe img input label li main math nav nth-child ol option p path screen section select slot span strong style summary svg table tbody td th tr u ul url use var video not and or only x-custom-element A DIV Svg foreignObject linearGradient -x _x é \\31 x \\@x x\\:y")

// atRules are statements and blocks with a prelude that fits.
var atRules = []string{
	"@charset \"utf-8\";", "@import 'i';", "@import url(i);", "@namespace svg url(n);", "@namespace \"n\";", "@layer a, b;", "@layer a { b{k:v} }", "@layer { b{k:v} }", "@supports (a:b) { c{k:v} }", "@supports not (a:b) { c{k:v} }", "@supports (a:b) and (c:d) { c{k:v} }", "@supports selector(a > b) { c{k:v} }",
	"@media print { a{k:v} }", "@media { a{k:v} }", "@media screen { @media (m) { a{k:v} } }", "@media screen { @font-face { k:v } }", "@media screen { @supports (a:b) { c{k:v} } }", "@document url(n) { a{k:v} }", "@-moz-document url-prefix() { a{k:v} }", "@page { k:v }", "@page :first { k:v }", "@page n:left { k:v }", "@page { k:v; @top-left { l:w } }",
	"@font-face { k:v; l:w }", "@font-feature-values n { @swash { k: 1 } }", "@font-palette-values --n { k:v }", "@keyframes n { from{k:v} to{k:w} }", "@-webkit-keyframes n { 0%{k:v} }", "@-moz-keyframes n { 0%{k:v} }", "@-o-keyframes n { 0%{k:v} }", "@keyframes n {}", "@KEYFRAMES n { from{k:v} }", "@keyframes \"n\" { from{k:v} }", "@keyframes 'a b' { from{k:v} }", "@keyframes \"none\" { from{k:v} }", "@keyframes n { 12.5%,+1e1%{k:v} FROM,To{k:v} }",
	"@counter-style n { system: cyclic; symbols: a }", "@property --n { syntax: '*'; inherits: false }", "@viewport { width: device-width }", "@-ms-viewport { width: device-width }", "@container (width > 1px) { a{k:v} }", "@container n (width > 1px) { a{k:v} }", "@scope (a) to (b) { c{k:v} }", "@starting-style { a{k:v} }", "@custom-media --n (m);", "@custom-media --n true;", "@custom-selector :--n a, b;", "@apply --n;", "@tailwind base;", "@include m(1px);", "@mixin m { k:v }", "@extend a;", "@view-transition { navigation: auto }", "@unknown;", "@unknown a b;", "@unknown {}", "@unknown { k:v }", "@unknown { a{k:v} }", "@unknown (a) [b] { c }", "@MEDIA print { a{k:v} }", "@Font-Face { k:v }", "@IMPORT 'i';", "@-x { k:v }", "@\\6d edia print { a{k:v} }", "@x\\:y;",
}

var mediaTypes = strings.Fields("all screen print speech tty tv projection handheld braille embossed aural SCREEN x-y -x é layer only-x notx and-x or-x")

// mediaFeatures are in parentheses.
var mediaFeatures = []string{
	"width:1px", "min-width:1px", "max-width: 100em", "min-width:0", "height:1px", "device-width:1px", "aspect-ratio:16/9", "aspect-ratio: 16 / 9", "min-aspect-ratio:1", "orientation:landscape", "orientation: portrait", "resolution:2dppx", "min-resolution:1.5dppx", "min-resolution: 192dpi", "resolution: infinite", "-webkit-min-device-pixel-ratio:2", "-webkit-min-device-pixel-ratio: 1.5", "min--moz-device-pixel-ratio:1.5", "scan:interlace", "grid", "grid:0", "update: slow", "overflow-block:scroll", "color", "color:8", "min-color: 8", "color-index:256", "monochrome", "monochrome:0", "color-gamut:p3", "dynamic-range: high", "inverted-colors:inverted", "pointer", "pointer:coarse", "hover", "hover: hover", "any-hover:none", "any-pointer: fine", "prefers-reduced-motion", "prefers-reduced-motion: reduce", "prefers-color-scheme:dark", "prefers-contrast: more", "forced-colors: active", "scripting: none", "display-mode:fullscreen", "video-color-gamut: p3", "WIDTH:1PX", "Min-Width: 1Px",
	"width>1px", "width >= 1px", "width = 1px", "width=1px", "1px<width", "1px <= width", "1px=width", "0<width<=100em", "100em >width> .5em", "400px<=width<=700px", "aspect-ratio>1/1", "aspect-ratio > 16/9", "1/2<aspect-ratio<2/1", "resolution>=2dppx", "color>8", "-1px<width", "+1px<width", "1e2px<width", "width<1e-3px", "min-width>1px", "width<calc(1px*2)", "width:calc(1px*2)", "width: 1.0px", "width:+0", "a", "not-x", "and", "or", "not", "--x", "--é", "aspect-ratio: 1.5", "aspect-ratio:0/0",
}

// addresses of imported files, as contents of strings.
var addresses = []string{
	"i.css", "", "./i.css", "../i.css", "/i.css", "//h/i.css", "http://h/i.css", "https://h/i.css", "https://h/i(1).css", "http://h/a b", "https://h/a'b", `https://h/a\"b`, "https://h/a)b", `https://h/a\\b`, "https://h/?q=1&r=2,3;4", "https://h/#f", "i.css?x", "é.css", "https://h/é", `\69 .css`, "i.less", "i(1).css", "a b.css", "a'b.css", `a\"b.css`, "data:text/css,a%7Bb:c%7D", "data:text/css;base64,YQ==", "screen", "url(i)", "~pkg/i.css", "@s/p", "pkg", "HTTP://H/I.CSS", "https://fonts.googleapis.com/css?family=A:400,700|B&display=swap", " i ", `a\
b`, "*/", "{};", "https://h/a\tb",
}
