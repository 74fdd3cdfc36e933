package com.hbuf.java;

/** Stand-in of the runtime library's interface of generated data types. */
public interface Data {
	interface FormJson {
		<T extends Data> T invoke(String json, Class<T> type) throws Exception;
	}

	FormJson formJson = new FormJson() {
		public <T extends Data> T invoke(String json, Class<T> type) throws Exception {
			return type.getConstructor().newInstance();
		}
	};

	byte[] toData() throws Exception;

	<T extends Data> T formData(byte[] data) throws Exception;
}
