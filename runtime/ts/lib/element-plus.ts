export interface LocaleContext {
	t(path: string, option?: Record<string, string | number>): string
}

export function useLocale(): LocaleContext {
	return {t: (path: string) => path}
}
