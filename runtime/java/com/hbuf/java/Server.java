package com.hbuf.java;

import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.CompletableFuture;

/** Stand-in of the runtime library's client side; it records what is sent. */
public interface Server {
	interface Context {
	}

	interface Form<T> {
		T form(byte[] data) throws Exception;
	}

	class Client {
		public final List<Object[]> calls = new ArrayList<>();
	}

	abstract class ClientRouter {
		private final Client client;

		public ClientRouter(Client client) {
			this.client = client;
		}

		public abstract String getName();

		public abstract long getId();

		protected <T> CompletableFuture<T> invoke(String name, long id, Data data, Form<T> json, Form<T> form) throws Exception {
			client.calls.add(new Object[]{name, id, data, null == json ? null : json.form(new byte[]{'{', '}'}), null != json, null != form});
			return new CompletableFuture<>();
		}
	}
}
