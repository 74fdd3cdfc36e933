// How drivers report to the check that runs them.
"use strict"
const fs = require("fs")

let buf = []

function write(text) {
	const b = Buffer.from(text)
	for (let i = 0; i < b.length;) {
		try {
			i += fs.writeSync(1, b, i)
		} catch (e) {
			if (e.code !== "EAGAIN") {
				throw e
			}
		}
	}
}

function say(l) {
	buf.push(JSON.stringify(l))
	if (buf.length > 500) {
		flush()
	}
}

function flush() {
	if (buf.length) {
		write(buf.join("\n") + "\n")
		buf = []
	}
}

module.exports = {say, flush}
