// What the generated forms use of vue: a component is what defineComponent gets.
declare global {
	namespace JSX {
		interface IntrinsicElements {
			[name: string]: any
		}

		interface Element {
		}
	}
}

export function defineComponent<C extends { name: string, props: Record<string, any>, setup: (props: any, ctx?: any) => (ctx: Record<string, any>) => any }>(component: C): C {
	return component
}
