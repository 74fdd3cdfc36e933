// What the generated code uses of the runtime library.
declare global {
	type BinaryData = ArrayBuffer | ArrayBufferView
}

export interface Data {
	toJson(): Record<string, any>

	toData(): BinaryData
}

export class RecordEntry<K extends string | number, V> {
	constructor(public readonly key: K, public readonly value: V) {
	}
}

export function isArray(value: any): value is any[] {
	return Array.isArray(value)
}

export function isRecord(value: any): value is Record<string, any> {
	return value !== null && typeof value === "object" && !Array.isArray(value)
}

// What a date picker tells: one time, several, or none.
type Times = string | number | Date

export function convertArray<T, E>(list: T[] | null | undefined, convert: (item: T) => E): E[] | null
export function convertArray<E>(list: Times | Times[] | null, convert: (item: Times) => E): E[] | null
export function convertArray(list: any, convert: (item: any) => any): any {
	if (list == null) {
		return null
	}
	return (Array.isArray(list) ? list : [list]).map((item: any) => convert(item))
}

export function convertRecord<K extends string | number, V, KE extends string | number, VE>(record: Record<K, V> | null | undefined, convert: (key: K, value: V) => RecordEntry<KE, VE>): Record<KE, VE> | null {
	if (record == null) {
		return null
	}
	const ret = {} as Record<KE, VE>
	for (const key of Object.keys(record)) {
		const entry = convert(key as K, record[key as K])
		Object.defineProperty(ret, entry.key, {value: entry.value, writable: true, enumerable: true, configurable: true})
	}
	return ret
}

export interface Context {
}

export interface Client {
	invoke<T extends Data | void>(serverName: string, serverId: number, name: string, id: number, param: Data, fromJson: ((json: Record<string, any>) => T) | null, fromData: ((data: BinaryData) => T) | null): Promise<T>
}

export class ServerClient {
	constructor(private readonly __client: Client) {
	}

	get name(): string {
		return ""
	}

	get id(): number {
		return 0
	}

	invoke<T extends Data | void>(name: string, id: number, param: Data, fromJson: ((json: Record<string, any>) => T) | null, fromData: ((data: BinaryData) => T) | null): Promise<T> {
		return this.__client.invoke<T>(this.name, this.id, name, id, param, fromJson, fromData)
	}
}

export interface ServerInvoke {
	formData(data: BinaryData | Record<string, any>): Data

	toData(data: Data): BinaryData | Record<string, any>

	invoke(data: Data, ctx?: Context): Promise<Data | void>
}

export interface ServerRouter {
	getInvoke(): Record<string, ServerInvoke>

	getName(): string

	getId(): number
}
