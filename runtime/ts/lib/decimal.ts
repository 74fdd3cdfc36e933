// The part of decimal.js the generated code and its users need: exact decimal numbers.
export class Decimal {
	private readonly n: bigint = 0n
	private readonly e: number = 0 // the value is n / 10^e
	private readonly nan: boolean = false

	constructor(value: Decimal | number | string | bigint) {
		if (value instanceof Decimal) {
			this.n = value.n
			this.e = value.e
			this.nan = value.nan
			return
		}
		if (typeof value !== "number" && typeof value !== "string" && typeof value !== "bigint") {
			throw Error("[DecimalError] Invalid argument: " + value)
		}
		const text = String(value)
		if (text === "NaN") {
			this.nan = true
			return
		}
		const m = /^([-+]?)(\d*)(?:\.(\d*))?(?:[eE]([-+]?\d+))?$/.exec(text)
		if (!m || (!m[2] && !m[3])) {
			throw Error("[DecimalError] Invalid argument: " + value)
		}
		let n = BigInt((m[2] || "") + (m[3] || ""))
		let e = (m[3] || "").length - Number(m[4] || 0)
		if (m[1] === "-") {
			n = -n
		}
		if (e < 0) {
			n *= 10n ** BigInt(-e)
			e = 0
		}
		while (e > 0 && n % 10n === 0n) {
			n /= 10n
			e--
		}
		this.n = n
		this.e = e
	}

	comparedTo(other: Decimal | number | string): number {
		const o = new Decimal(other)
		if (this.nan || o.nan) {
			return NaN
		}
		const a = this.n * 10n ** BigInt(o.e)
		const b = o.n * 10n ** BigInt(this.e)
		return a < b ? -1 : a > b ? 1 : 0
	}

	equals(other: Decimal | number | string): boolean {
		return this.comparedTo(other) === 0
	}

	lessThan(other: Decimal | number | string): boolean {
		return this.comparedTo(other) < 0
	}

	greaterThan(other: Decimal | number | string): boolean {
		return this.comparedTo(other) > 0
	}

	lessThanOrEqualTo(other: Decimal | number | string): boolean {
		return this.comparedTo(other) <= 0
	}

	greaterThanOrEqualTo(other: Decimal | number | string): boolean {
		return this.comparedTo(other) >= 0
	}

	toString(): string {
		if (this.nan) {
			return "NaN"
		}
		const neg = this.n < 0n
		let s = (neg ? -this.n : this.n).toString()
		if (this.e > 0) {
			s = s.padStart(this.e + 1, "0")
			s = s.substring(0, s.length - this.e) + "." + s.substring(s.length - this.e)
		}
		return (neg ? "-" : "") + s
	}

	toFixed(digits: number): string {
		const f = 10n ** BigInt(digits)
		const t = (this.n < 0n ? -this.n : this.n) * f * 10n / 10n ** BigInt(this.e)
		let s = ((t + 5n) / 10n).toString()
		if (digits > 0) {
			s = s.padStart(digits + 1, "0")
			s = s.substring(0, s.length - digits) + "." + s.substring(s.length - digits)
		}
		return (this.n < 0n ? "-" : "") + s
	}

	toNumber(): number {
		return Number(this.toString())
	}
}

export default Decimal
