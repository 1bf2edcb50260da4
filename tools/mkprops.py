#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

API = ["symbol received by a Writer passed to QRCode.Save"]
IMG = ["image.Image handed to a custom ImageEncoder", "bytes written to the io.WriteCloser"]

prop("C01", "Every encoded symbol reads back as exactly the text that was given",
 "Whenever encoding succeeds, a standard reader that needs no error correction recovers from the produced symbol exactly the bytes that were passed in, for string and for []byte input, in every mode, version and error-correction level. No character is dropped, replaced, reordered or added, also at the exact capacity limit.",
 ["inputs", "configurations"], "every text up to 7089 digits / 4296 alphanumerics / 2953 bytes / 1817 kanji, every mode, version, level",
 "the tests encode about a dozen short strings and never decode; the data path branches on length mod 2/3, three count-field widths, and 160 block layouts",
 ["encoder.go", "qrcode.go", "chardet.go", "version.go", "version_cfg.go"],
 [("segment encoding", "encoder.go Encode, encodeNumeric, encodeAlphanumeric, encodeKanji, encodeByte"), ("character count width", "encoder.go charCountBits"), ("terminator and padding", "encoder.go breakUpInto8bit"), ("zigzag placement", "qrcode.go fillDataBinary")], API)

prop("C02", "Function patterns, format and version information are exact in every symbol",
 "In every produced symbol of version v (17+4v modules per side) all finder, separator, timing and alignment modules and the dark module have exactly the standard's positions and values. Both copies of the format information state the requested error-correction level and the mask really applied to the data, and from version 7 on both copies of the version information state v.",
 ["inputs", "configurations"], "40 versions x 4 levels x 8 masks",
 "the tests look at a few versions' alignment coordinates and format tables; no test compares a whole symbol, and the mask in use depends on the data",
 ["qrcode.go", "version.go", "version_cfg.go", "mask.go"],
 [("function patterns", "qrcode.go prefillMatrix, addFinder, addSplitter, addAlignment, addTimingLine, addDarkBlock"), ("format information", "qrcode.go fillFormatInfo; version.go formatInfo"), ("version information", "qrcode.go fillVersionInfo; version.go verInfo")], API)

prop("C03", "All blocks are valid Reed-Solomon codewords, so damage within budget is repaired",
 "For every version and level the codewords placed in the symbol split into exactly the standard's blocks, in the standard's interleaved order, each block being data followed by its Reed-Solomon error-correction codewords, with pad codewords alternating 0xEC/0x11 and zero remainder bits. Hence any damage of at most floor(EC/2) codewords in every block still reads back as the original text.",
 ["inputs", "configurations", "fault_sequences"], "40 x 4 block layouts; every damaged-codeword window of the full correction budget",
 "no test checks error-correction codewords against syndromes or damages a symbol; a wrong table row for one of 160 layouts passes all tests",
 ["qrcode.go", "version.go", "version_cfg.go", "encoder.go"],
 [("split into blocks", "qrcode.go dataEncoding"), ("EC codewords", "qrcode.go errorCorrectionEncoding"), ("interleaving", "qrcode.go arrangeBits"), ("tables", "version_cfg.go")], API)

prop("C04", "Automatic mode selection picks the densest mode that holds every character",
 "Without an explicit mode the symbol uses numeric mode if every character is a digit, else alphanumeric if every character is in the 45-character set, else kanji if every character is a kanji representable in QR kanji mode, else byte mode. The choice depends only on the set of characters, never on their order or number, and is announced by the mode indicator and the character count of the segment.",
 ["inputs"], "every rune of Unicode as a one-character text; every sequence of character classes up to a length bound",
 "tests try a handful of strings per mode; the detector is a state machine over the order of character classes",
 ["chardet.go", "encoder.go"], [("detection", "chardet.go analyzeEncodeModeFromRaw, analyzeNum, analyzeAlphaNum, analyzeJP")], API)

prop("C05", "Version selection is minimal, honours the options, and capacity is exact",
 "Without an explicit version the symbol has the smallest version whose standard capacity for the mode and level holds the text, raised to the minimum version if that is larger; an explicit version is used exactly, also when a minimum version is given too. Encoding fails with an error, never a panic or a truncated symbol, if and only if the text does not fit the version in force (or version 40).",
 ["inputs", "configurations"], "all 40 x 4 x 4 (version, level, mode) capacity limits from both sides, every length 0..limit, minimum versions 1..40",
 "tests check a few lengths; there are 640 capacity limits and each is an off-by-one opportunity",
 ["version.go", "version_cfg.go", "qrcode.go", "encoder.go"], [("analysis", "version.go analyzeVersion and its search"), ("options", "qrcode.go calcVersion"), ("overflow", "encoder.go breakUpInto8bit")],
 ["QRCode.Dimension and the symbol received by a Writer", "error returned by New/NewWith"])

prop("C06", "Encode options compose predictably and explicit modes are validated",
 "Options take effect independently of each other, for each kind the last valid one wins, out-of-range versions, minimum versions and levels are ignored, and the defaults are automatic mode, automatic version and level Q. An explicit mode is the mode of the symbol, and if some character cannot be written in it, or the mode is not one of the four, encoding returns an error. No combination of options and text panics, and named string and byte-slice types encode like string and []byte.",
 ["configurations", "histories"], "every sequence of options up to a depth over valid, boundary and invalid arguments, for texts of each character class",
 "tests apply one or two fixed options; interactions (invalid after valid, mode with version, order) are untested",
 ["encoder_option.go", "qrcode.go"], [("option application", "encoder_option.go With*"), ("validation", "qrcode.go validateEncodingMode"), ("mode switch", "encoder.go newEncoder"), ("type switch", "qrcode.go toBytes")],
 ["error returned by New/NewWith", "symbol received by a Writer"])

prop("C07", "One encode gives the same symbol under every goroutine schedule and never hangs",
 "The symbol produced for given text and options is a function of them alone: every interleaving of the goroutines that evaluate the mask candidates gives the identical symbol, also when several masks tie for the lowest penalty. In no interleaving does the call deadlock, panic, leak a goroutine or race on memory.",
 ["schedules", "inputs"], "all completion orders of the mask goroutines (8! for one call) and all lower-level interleavings up to a deviation bound, on inputs with and without tied scores",
 "a test run sees one or two schedules; which of several tied masks wins is decided by arrival order",
 ["qrcode.go", "debug.go", "mask.go"], [("parallel mask evaluation and choice", "qrcode.go masking"), ("debug switch read by goroutines", "debug.go debugEnabled")], API)

prop("C08", "Concurrent encodes and saves do not influence each other",
 "Any number of goroutines may encode and save different codes at the same time, also with different versions, levels, modes and writers, also as the first calls in the process, and may save one code to several writers at once. Each gets exactly the output it gets when it runs alone, without data race, deadlock or panic.",
 ["schedules"], "interleavings of 2-3 concurrent calls up to a preemption bound, including first use of lazily initialised state",
 "no test runs two calls concurrently",
 ["qrcode.go", "version.go", "encoder.go", "debug.go", "writer/standard/writer.go", "writer/standard/image_option.go"],
 [("shared package state", "version.go caches and tables; encoder.go padding bytes and count map; debug.go once; writer/standard default shapes and colours")], API + IMG)

prop("C09", "Results do not depend on what the process encoded or saved before",
 "Encoding and saving give the same result at any point of a process's history: after any sequence of other encodes (successful or failing, any version, level, mode, writer, options), and however often the same code is saved. A code is not affected by later changes to the caller's byte slice, and option values can be reused for several calls and writers.",
 ["histories", "inputs"], "every ordered pair (and triples of a smaller alphabet) of operations in one process; repeated Save; caller mutation after New",
 "tests run each call on fresh state and never compare a second call with a first",
 ["qrcode.go", "version.go", "encoder.go", "writer/standard/image_option.go"], [("lazily built caches", "version.go"), ("per-call option struct", "encoder_option.go DefaultEncodingOption"), ("private copy of the text", "qrcode.go build")], API + IMG)

prop("C10", "The mask chosen has the lowest penalty of all eight",
 "Among the eight masks of the standard the one used in the produced symbol has the lowest total penalty, computed over the complete symbol, colours only, with the documented four rules: runs of five or more, 2x2 blocks, finder-like patterns (1011101 with four light modules on one side), and deviation of the dark proportion from 50%.",
 ["inputs", "configurations"], "all short texts and all versions and levels, against eight recomputed candidates each",
 "tests check two rules on one stored matrix; minimality needs all eight candidates of each symbol",
 ["qrcode.go", "mask_evaluation.go", "mask.go", "kmp_variant.go"], [("penalty", "mask_evaluation.go rule1..rule4"), ("pattern count", "kmp_variant.go"), ("choice", "qrcode.go masking")], API)

prop("C11", "All views of the symbol matrix agree and copies are independent",
 "The matrix handed to a Writer is square with side Dimension(); its bitmap, row-first and column-first iterations and the row and column accessors describe the same modules, each visited exactly once in the stated order and with x to the right and y down. Each module's type label is the role it has in the symbol, out-of-range rows and columns yield nothing, and a copy or a bitmap can be modified or kept without affecting the symbol.",
 ["inputs", "histories"], "all versions, all coordinates, all views, mutation of every returned bitmap, row and copy",
 "tests use a 3x3 matrix symmetric enough to hide transposition",
 ["matrix.go", "matrix_type.go", "qrcode.go"], [("views", "matrix.go Bitmap, Iterate, Row, Col, Copy"), ("labels", "matrix_type.go; qrcode.go prefillMatrix")], API)

prop("C12", "Save writes once, closes exactly once and reports every write failure",
 "Save calls the writer's Write exactly once with the symbol and then Close exactly once, also when Write fails or panics; it returns Write's error unchanged, and a nil writer is accepted and does nothing. With the image and text writers a failure of the underlying stream at any byte is returned as an error, success means that all bytes were written, and the underlying stream is closed by the writers that own it.",
 ["fault_sequences", "histories"], "every script of write/close outcomes, and a failure or short write injected at every write call and byte offset",
 "tests only run the success path",
 ["qrcode.go", "writer/standard/writer.go", "writer/compressed/writer.go", "writer/file/writer.go"], [("lifecycle", "qrcode.go Save"), ("error wrapping", "writer/standard/writer.go drawTo, Close"), ("stream errors", "writer/compressed/writer.go, writer/file/writer.go")], ["calls made on the Writer / io.WriteCloser", "error returned by Save"])

prop("C13", "The standard writer paints every module and border pixel exactly",
 "With the rectangle shape and no logo, halftone or gradient, the image has the size and borders the writer's Attribute reports for the symbol's dimension, module (x,y) covers exactly its square block of the configured width filled with the foreground or background colour, and every border pixel has the background colour (fully transparent where transparency was requested). Block width 0 means the default 20, border arguments follow the 1/2/4 value rule, and PNG output is lossless and JPEG output the same picture.",
 ["configurations", "inputs"], "block widths 1..255, border tuples, colours, transparency, formats, all versions",
 "tests write a few files and never compare pixels; asymmetric borders are only tested on the size formula",
 ["writer/standard/writer.go", "writer/standard/image_option.go", "writer/standard/image_option_api.go", "writer/standard/image_qr_shape.go", "writer/standard/image_format.go"], [("drawing", "writer/standard/writer.go draw"), ("geometry", "writer/standard/image_option.go preCalculateAttribute"), ("border rule", "writer/standard/image_option_api.go WithBorderWidth")], IMG)

prop("C14", "A logo is centred, size-limited and its safe zone clears only its own area",
 "A logo is drawn, its top-left pixel at half the size difference, if and only if the image is at least the size multiplier times as wide and as high as the logo; otherwise the picture is the one without logo. Pixels outside the logo stay unchanged, except that with the safe zone exactly the blocks overlapping the logo rectangle are not painted dark and count as empty for their neighbours.",
 ["configurations", "inputs"], "logo sizes around every limit, square and not, any image origin, multipliers, asymmetric borders, with and without safe zone",
 "tests use one logo and look at no pixels",
 ["writer/standard/writer.go", "writer/standard/image_option_api.go"], [("fit test", "writer/standard/writer.go validLogoImage"), ("safe zone", "writer/standard/writer.go draw, blockOverlapsLogo")], IMG)

prop("C15", "Halftone leaves every module's centre and all other patterns intact",
 "With a halftone image the middle third of every data module still has the module's own colour and every module that is not labelled as data (finder, timing, format, version) is painted as without halftone. The other eight ninths of a data module show the black-and-white version of the image (light where its brightness exceeds 60 of 255) stretched over the whole symbol (light parts transparent if transparency was requested), and image size and borders do not change.",
 ["configurations", "inputs"], "block widths, versions, source image sizes and contents, transparency",
 "the halftone tests need a human to look at the picture",
 ["writer/standard/writer.go", "writer/standard/imgkit/process.go"], [("3x3 sub-blocks", "writer/standard/writer.go draw"), ("binarisation", "writer/standard/imgkit/process.go")], IMG)

prop("C16", "A gradient recolours exactly the foreground pixels, along its direction",
 "With a gradient exactly the pixels that would have the foreground colour change; each becomes the interpolation of the colour stops at the pixel's relative position along the gradient direction (0 right, 90 up, 180 left, 270 down) between the extreme image corners, clamped to the first and last stop. The order in which stops are given does not matter, and an absent gradient or one without stops changes nothing.",
 ["configurations", "inputs"], "angles around the circle, 1-3 stops in all orders and positions, foreground colours, borders",
 "the tests apply no gradient at all",
 ["writer/standard/gradient.go", "writer/standard/writer.go", "writer/standard/image_option_api.go"], [("projection and interpolation", "writer/standard/gradient.go applyGradient, interpolateColor, blendColors")], IMG)

prop("C17", "A custom shape is asked once per module with the right place, colour, neighbours",
 "A custom shape is called exactly once for every module, row by row: the finder call for finder modules and the ordinary call for all others. Each call carries the module's upper-left pixel, the block's edge length, the colour of the module's value and the set of dark modules among itself and its eight neighbours, modules outside the symbol counting as light.",
 ["configurations", "inputs"], "all versions, block widths, borders; every module with its neighbourhood",
 "the shape tests draw pictures for inspection",
 ["writer/standard/writer.go", "writer/standard/image_qr_shape.go"], [("callback loop", "writer/standard/writer.go draw"), ("neighbours", "writer/standard/writer.go getNeighbours"), ("context", "writer/standard/image_qr_shape.go DrawContext")], ["DrawContext passed to IShape"])

prop("C18", "All built-in shapes keep the symbol readable",
 "With the circle shape and with every combination of the library's finder and block shapes, the centre of every module has the foreground colour if the module is dark and the background colour if it is light, so a reader sampling module centres recovers the exact symbol. Shape parameters within their documented range give the painted width as a part of the block's, those out of it behave like the documented default, and drawing never reaches outside the image or changes its size.",
 ["configurations", "inputs"], "every finder x block shape, parameters on and across their limits, block widths, versions",
 "the shape tests only draw pictures",
 ["writer/standard/shapes/blocks.go", "writer/standard/shapes/finders.go", "writer/standard/shapes/constructor.go", "writer/standard/image_qr_shape.go"], [("block shapes", "writer/standard/shapes/blocks.go"), ("finder shapes", "writer/standard/shapes/finders.go")], IMG)

prop("C19", "The compressed writer emits a complete two-colour PNG of the symbol",
 "The compressed writer writes one valid two-colour PNG of side dimension*BlockSize+2*Padding in which module (x,y) is the block at (Padding+x*BlockSize, Padding+y*BlockSize), black if dark and white otherwise, with a white border. Writing to an existing file leaves exactly that PNG in it, whatever the file held before.",
 ["configurations", "inputs", "histories"], "block sizes, paddings, versions, previous file contents longer and shorter",
 "there is no test for this writer",
 ["writer/compressed/writer.go"], [("drawing", "writer/compressed/writer.go Write"), ("opening", "writer/compressed/writer.go New")], ["bytes written"])

prop("C20", "The text writer's half-block characters reproduce the symbol exactly",
 "The file (text) writer emits one line per two symbol rows, each exactly as wide as the symbol and ended by a newline, in which every character shows the upper and the lower module of its column (space, upper half, lower half, full block), the missing lower row of an odd-sized symbol counting as light. It writes nothing else, leaves the file open, and a nil file is reported as an error.",
 ["inputs", "configurations", "histories"], "all versions and levels; all four module pairs in every column; several symbols to one file",
 "there is no test for this writer",
 ["writer/file/writer.go"], [("pairing of rows", "writer/file/writer.go Write")], ["bytes written"])

prop("C21", "The terminal writer draws the whole symbol and always restores the terminal",
 "The terminal writer draws every module as a two-cell block in the module's colour with a one-module light margin on all four sides, shows it before waiting, and waits until a key is pressed, ignoring every other event. A failure to flush is returned, and the terminal is closed exactly once after Save in every case.",
 ["configurations", "fault_sequences", "histories"], "all versions; every sequence of terminal events up to a depth; flush failure",
 "there is no test for this writer (it needs a terminal)",
 ["writer/terminal/writer.go"], [("cells", "writer/terminal/writer.go Write, drawBlock, preDraw"), ("event loop", "writer/terminal/writer.go hold"), ("close", "writer/terminal/writer.go Close")], ["calls made on the terminal library"])

prop("C22", "The command line tool writes the requested code or fails visibly",
 "The qrcode command writes to the requested file an image that shows the symbol of its argument with the requested block size, borders, shape, transparency and the format of the file's extension (JPEG unless png). If the code cannot be produced or written, it says so on standard error and exits with a non-zero status; unknown flags, bad flag values (block sizes outside 0 to 255, borders that are not four numbers from 0 to 255) and texts that cannot be encoded are rejected before any file is touched.",
 ["configurations", "inputs"], "all flag combinations over valid, boundary and invalid values, long and short flag names",
 "there is no test for the command",
 ["cmd/qrcode/app.go", "cmd/qrcode/main.go"], [("flag parsing", "cmd/qrcode/app.go parseGenerateContextFrom"), ("options", "cmd/qrcode/app.go applyOptions"), ("exit", "cmd/qrcode/main.go")], ["exit status, standard error, output file"])

prop("C23", "The WebAssembly entry point always answers with an image or an error",
 "Every call of the WebAssembly function, with any number and type of arguments and any full or partial option object, returns an object: either success with a base64 image of the symbol of the given text in the requested version, mode, level, size, colours and format, or failure with a message. No call crashes the module, and after any call the next one works as if it were the first.",
 ["inputs", "configurations", "histories"], "argument lists and option objects over present, absent, wrongly typed and invalid values; sequences of calls",
 "the js/wasm files are not even built by the tests",
 ["cmd/wasm/main.go", "cmd/wasm/types.go"], [("argument handling", "cmd/wasm/main.go genqrcode"), ("option parsing", "cmd/wasm/types.go optionFromJSValue, encodeOptions, outputOptions")], ["value returned to JavaScript"])

prop("C24", "Colours given as hex strings or colour values are painted exactly",
 "A 7-character '#rrggbb' or 4-character '#rgb' string in either case and an opaque colour value of any standard 8-bit colour type set exactly that colour (as image/color converts it) for foreground or background; a translucent or 16-bit value sets the 8-bit colour image/color converts it to (16-bit grey aside), as custom shapes are handed it and the border shows it. The last setting of each wins, nil colours and an empty background string are ignored, and malformed hex strings are rejected with a panic when the option is applied rather than painted as another colour.",
 ["inputs", "configurations"], "all 4096 short forms, all values of each channel in long form, all opaque 8-bit colours per channel and type, malformed strings",
 "tests parse a few strings",
 ["writer/standard/image_option.go", "writer/standard/image_option_api.go"], [("parsing", "writer/standard/image_option.go parseFromHex, parseFromColor")], IMG)

prop("C25", "Debug mode never changes results",
 "With debugging enabled, through the environment variable or the API, before or between calls, and whether or not the draft directory for the debug pictures exists or can be written, every encode returns the same symbol or error as without debugging. Without debugging no file is created and nothing is logged for a successful encode.",
 ["configurations", "histories"], "environment values, moment of enabling, state of the draft directory, versions and levels",
 "tests run with debugging off and on only in separate fixed cases",
 ["debug.go", "qrcode.go"], [("switch", "debug.go debugEnabled, SetDebugMode"), ("drawings", "debug.go debugDraw")], API + ["files created in the working directory"])

prop("C26", "The image helpers keep geometry, threshold and contents",
 "Greyscale and black-and-white conversion return an image with the bounds of the source, whatever its origin, in which each pixel is the standard grey value of the source pixel, respectively white exactly if that value exceeds the threshold and black otherwise. Scaling returns the requested rectangle, saving and reading back a PNG returns the same pixels, and unreadable, undecodable or unsupported files give an error.",
 ["inputs", "configurations"], "all grey values x all thresholds; small images with every kind of origin and colour type; file name extensions",
 "the image helper tests are all skipped ('need human to check')",
 ["writer/standard/imgkit/process.go", "writer/standard/imgkit/io.go"], [("conversion", "writer/standard/imgkit/process.go Gray, Binaryzation, Scale"), ("files", "writer/standard/imgkit/io.go Read, Save")], ["returned image or error"])

prop("C27", "A transparent background over any colour looks like that background painted",
 "With the transparent background option every pixel of the picture is a valid colour and untouched background is fully transparent; laid over any opaque colour the picture equals, up to rounding, the one painted with that background colour (over white for halftone pictures), for all shapes, logos, gradients and foregrounds and in whatever order the background options are given. In JPEG files, which cannot be transparent, the option changes nothing.",
 ["inputs", "configurations"], "option sets (shape, logo, safe zone, halftone, gradient, foreground, encoder, order of the options) x background colours x symbols and block widths",
 "one test writes a transparent picture and looks at no pixel; antialiased edges and translucent logos depend on the background",
 ["writer/standard/writer.go", "writer/standard/image_option.go", "writer/standard/gradient.go"], [("background colour", "writer/standard/image_option.go backgroundColor, translateToRGBA"), ("painting", "writer/standard/writer.go drawTo, draw, halftoneColor"), ("gradient", "writer/standard/gradient.go applyGradient")], IMG)

prop("C28", "Image options combine independently, in any order; unusable ones change nothing",
 "The output of the standard writer for any sequence of options is the one for the last effective option of each kind (background, transparency, foreground, gradient, logo, logo size multiplier, safe zone, block width, shape, encoder, borders, halftone), whatever their order. Nil colours, logos, gradients and encoders, gradients without stops and empty background strings, and logo and halftone files that are missing, broken or of another format have no effect; a nil shape or halftone image stands for the default. A logo and its safe zone change the pixels they cover and no others, whatever the other options. No such sequence panics.",
 ["inputs", "configurations"], "all sequences of options up to a length, after several sets of other options",
 "the tests apply one option at a time",
 ["writer/standard/image_option.go", "writer/standard/image_option_api.go", "writer/standard/writer.go"], [("options", "writer/standard/image_option_api.go With..."), ("defaults", "writer/standard/image_option.go defaultOutputImageOption, getShape, logoImage"), ("use", "writer/standard/writer.go NewWithWriter, draw")], IMG)

prop("C29", "Writers for named files leave exactly the saved picture in that file",
 "Creating a standard or compressed writer for a file name creates or empties that file at once (relative to the directory then current, following links), or returns an error and touches nothing. The first Save leaves in it exactly the bytes a stream would get and closes it; a further Save returns an error and changes nothing. Closing without saving leaves the file empty, the text writer appends to the file it was given and leaves it open, and no operation creates or changes any other file. What cannot be written to the device is reported by Save.",
 ["inputs", "histories"], "all histories of creating writers, saving, closing, removing, overwriting, changing directory, up to a depth",
 "tests save to a fixed file and do not look at it or at what is left open",
 ["writer/standard/writer.go", "writer/compressed/writer.go", "writer/file/writer.go"], [("creation", "writer/standard/writer.go New; writer/compressed/writer.go New"), ("closing", "writer/standard/writer.go Close; writer/compressed/writer.go Close; qrcode.go Save")], ["files of the directory, open file descriptors, returned errors"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
