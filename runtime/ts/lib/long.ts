// The part of long.js the generated code and its users need, with the same behaviour: 64 bit two's complement.
export default class Long {
	static readonly ZERO = new Long(0, 0, false)
	static readonly UZERO = new Long(0, 0, true)

	constructor(public readonly low: number, public readonly high: number = 0, public readonly unsigned: boolean = false) {
		this.low = low | 0
		this.high = high | 0
		this.unsigned = !!unsigned
	}

	static of(value: bigint, unsigned: boolean): Long {
		return new Long(Number(BigInt.asIntN(32, value)), Number(BigInt.asIntN(32, value >> 32n)), unsigned)
	}

	static isLong(value: any): value is Long {
		return value instanceof Long
	}

	static fromNumber(value: number, unsigned?: boolean): Long {
		if (isNaN(value)) {
			return unsigned ? Long.UZERO : Long.ZERO
		}
		value = Math.trunc(value)
		if (unsigned) {
			if (value < 0) {
				return Long.UZERO
			}
			if (value >= 2 ** 64) {
				return Long.of((1n << 64n) - 1n, true)
			}
		} else {
			if (value <= -(2 ** 63)) {
				return Long.of(-(1n << 63n), false)
			}
			if (value + 1 >= 2 ** 63) {
				return Long.of((1n << 63n) - 1n, false)
			}
		}
		return Long.of(BigInt(value), !!unsigned)
	}

	static fromString(text: string, unsigned?: boolean | number): Long {
		const u = typeof unsigned === "boolean" ? unsigned : false
		if (text.length === 0) {
			throw Error("empty string")
		}
		if (text === "NaN" || text === "Infinity" || text === "+Infinity" || text === "-Infinity") {
			return u ? Long.UZERO : Long.ZERO
		}
		const dash = text.indexOf("-")
		if (dash > 0) {
			throw Error("interior hyphen")
		}
		const digits = dash === 0 ? text.substring(1) : text
		let n = 0n
		for (let i = 0; i < digits.length; i += 8) { // as the library does, by pieces of eight digits
			const size = Math.min(8, digits.length - i)
			const v = parseInt(digits.substring(i, i + size), 10)
			n = n * 10n ** BigInt(size) + BigInt(isNaN(v) ? 0 : v)
		}
		return Long.of(dash === 0 ? -n : n, u)
	}

	static fromValue(value: Long | number | string | { low: number, high: number, unsigned?: boolean }, unsigned?: boolean): Long {
		if (typeof value === "number") {
			return Long.fromNumber(value, unsigned)
		}
		if (typeof value === "string") {
			return Long.fromString(value, unsigned)
		}
		return new Long(value.low, value.high, typeof unsigned === "boolean" ? unsigned : !!value.unsigned)
	}

	toBigInt(): bigint {
		const v = (BigInt(this.high >>> 0) << 32n) | BigInt(this.low >>> 0)
		return this.unsigned ? v : BigInt.asIntN(64, v)
	}

	toString(): string {
		return this.toBigInt().toString()
	}

	toNumber(): number {
		return Number(this.toBigInt())
	}

	equals(other: Long | number | string): boolean {
		const o = Long.isLong(other) ? other : Long.fromValue(other)
		if (this.unsigned !== o.unsigned && (this.high >>> 31) === 1 && (o.high >>> 31) === 1) {
			return false
		}
		return this.high === o.high && this.low === o.low
	}
}
