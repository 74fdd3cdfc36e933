package dart

import (
	"fmt"
	"sort"
	"sync"
)

// What the generated code uses of the libraries of Dart and of its own runtime, as declarations.
// External members are in builtin.go.
var stubs = map[string]string{
	"dart:core": `
class Object {
  const Object();
  external bool operator ==(Object other);
  external int get hashCode;
  external Type get runtimeType;
  external String toString();
}
class Type {}
class Function {}
class bool {
  external bool operator &(bool o);
  external bool operator |(bool o);
}
abstract class Comparable<T> { external int compareTo(T other); }
class num implements Comparable<num> {
  external int compareTo(num other);
  external int toInt();
  external double toDouble();
  external int round();
  external int floor();
  external int ceil();
  external int truncate();
  external num abs();
  external bool get isNaN;
  external bool get isFinite;
  external bool get isInfinite;
  external bool get isNegative;
  external String toStringAsFixed(int digits);
  external static num parse(String s);
  external static num? tryParse(String s);
}
class int extends num {
  external static int parse(String s, {int? radix});
  external static int? tryParse(String s, {int? radix});
}
class double extends num {
  external static double parse(String s);
  external static double? tryParse(String s);
}
class String implements Comparable<String> {
  external int compareTo(String other);
  external int get length;
  external bool get isEmpty;
  external bool get isNotEmpty;
  external String operator +(String o);
  external String operator [](int i);
  external String operator *(int n);
  external String trim();
  external String toLowerCase();
  external String toUpperCase();
  external bool startsWith(String s);
  external bool endsWith(String s);
  external bool contains(String s);
  external int indexOf(String s);
  external String substring(int from, [int? to]);
  external List<String> split(String s);
  external Iterable<int> get runes;
  external String replaceAll(String a, String b);
}
class Iterable<E> {
  external Iterable<T> map<T>(T Function(E e) f);
  external Iterable<E> where(bool Function(E e) f);
  external List<E> toList({bool growable = true});
  external Set<E> toSet();
  external bool any(bool Function(E e) f);
  external bool every(bool Function(E e) f);
  external bool contains(Object? o);
  external void forEach(void Function(E e) f);
  external String join([String sep = ""]);
  external E firstWhere(bool Function(E e) f, {E Function()? orElse});
  external E get first;
  external E get last;
  external int get length;
  external bool get isEmpty;
  external bool get isNotEmpty;
  external Iterable<T> cast<T>();
}
class List<E> extends Iterable<E> {
  external factory List.from(Iterable<dynamic> l, {bool growable = true});
  external factory List.of(Iterable<E> l, {bool growable = true});
  external factory List.filled(int n, E fill, {bool growable = false});
  external factory List.empty({bool growable = false});
  external E operator [](int i);
  external void operator []=(int i, E v);
  external void add(E v);
  external void addAll(Iterable<E> l);
  external bool remove(Object? o);
  external void clear();
  external int indexOf(E e);
  external List<E> sublist(int a, [int? b]);
  external List<T> cast<T>();
}
class Set<E> extends Iterable<E> {
  external bool add(E v);
  external bool remove(Object? o);
  external void clear();
}
class MapEntry<K, V> {
  external const factory MapEntry(K key, V value);
  external K get key;
  external V get value;
}
class Map<K, V> {
  external factory Map.from(Map<dynamic, dynamic> m);
  external factory Map.of(Map<K, V> m);
  external V? operator [](Object? k);
  external void operator []=(K k, V v);
  external Map<K2, V2> map<K2, V2>(MapEntry<K2, V2> Function(K key, V value) f);
  external Iterable<K> get keys;
  external Iterable<V> get values;
  external Iterable<MapEntry<K, V>> get entries;
  external bool containsKey(Object? k);
  external void forEach(void Function(K k, V v) f);
  external V putIfAbsent(K k, V Function() f);
  external void addAll(Map<K, V> m);
  external V? remove(Object? k);
  external int get length;
  external bool get isEmpty;
  external bool get isNotEmpty;
  external Map<K2, V2> cast<K2, V2>();
}
class Future<T> {
  external factory Future.value(T v);
  external Future<R> then<R>(R Function(T v) f);
}
class DateTime implements Comparable<DateTime> {
  external factory DateTime.fromMillisecondsSinceEpoch(int ms, {bool isUtc = false});
  external factory DateTime.now();
  external static DateTime parse(String s);
  external static DateTime? tryParse(String s);
  external int get millisecondsSinceEpoch;
  external int get microsecondsSinceEpoch;
  external bool get isUtc;
  external DateTime toUtc();
  external DateTime toLocal();
  external bool isAfter(DateTime o);
  external bool isBefore(DateTime o);
  external int compareTo(DateTime o);
  external String toIso8601String();
  external String format(String pattern); // an extension of hbuf_flutter
}
class RegExp {
  external factory RegExp(String source);
  external bool hasMatch(String s);
}
class Error {}
class Exception { external factory Exception([dynamic m]); }
class FormatException implements Exception {}
external bool identical(Object? a, Object? b);
external void print(Object? o);
`,
	"dart:typed_data": `
class ByteBuffer { external Uint8List asUint8List(); external ByteData asByteData(); }
class ByteData {
  external factory ByteData(int n);
  external factory ByteData.view(ByteBuffer b);
  external ByteBuffer get buffer;
  external int get lengthInBytes;
}
class Uint8List extends List<int> {
  external factory Uint8List(int n);
  external factory Uint8List.fromList(List<int> l);
  external ByteBuffer get buffer;
}
`,
	"dart:convert": `
class JsonCodec {
  external String encode(Object? o);
  external dynamic decode(String s);
}
class Utf8Codec {
  external List<int> encode(String s);
  external String decode(List<int> b);
}
JsonCodec get json => JsonCodec();
Utf8Codec get utf8 => Utf8Codec();
external dynamic jsonDecode(String s);
external String jsonEncode(Object? o);
`,
	"package:fixnum/fixnum.dart": `
class Int64 implements Comparable<dynamic> {
  external factory Int64([int v = 0]);
  external static Int64 parseInt(String s);
  external static Int64? tryParseInt(String s);
  external static Int64 get ZERO;
  external static Int64 get ONE;
  external static Int64 get MAX_VALUE;
  external static Int64 get MIN_VALUE;
  external int toInt();
  external double toDouble();
  external String toStringUnsigned();
  external int compareTo(dynamic o);
  external bool operator <(dynamic o);
  external bool operator >(dynamic o);
  external bool operator <=(dynamic o);
  external bool operator >=(dynamic o);
  external Int64 operator +(dynamic o);
  external Int64 operator -(dynamic o);
}
`,
	"package:decimal/decimal.dart": `
class Decimal implements Comparable<Decimal> {
  external factory Decimal.fromInt(int v);
  external factory Decimal.fromJson(String s);
  external static Decimal parse(String s);
  external static Decimal? tryParse(String s);
  external static Decimal get zero;
  external static Decimal get one;
  external String toJson();
  external String toStringAsFixed(int digits);
  external double toDouble();
  external int compareTo(Decimal o);
  external bool operator <(Decimal o);
  external bool operator >(Decimal o);
  external bool operator <=(Decimal o);
  external bool operator >=(Decimal o);
}
`,
	"package:hbuf_dart/hbuf_dart.dart": `
import 'dart:typed_data';
abstract class Data {
  Map<String, dynamic> toMap();
  ByteData toData();
  Data copy();
}
class Context {}
abstract class Client {
  Future<T> invoke<T>(String name, int id, Data data, T Function(Map<String, dynamic> map) fromMap, T Function(ByteData data) fromData);
}
abstract class ServerClient {
  final Client _client;
  ServerClient(this._client);
  String get name;
  int get id;
  Future<T> invoke<T>(String name, int id, Data data, T Function(Map<String, dynamic> map) fromMap, T Function(ByteData data) fromData) {
    return _client.invoke<T>(name, id, data, fromMap, fromData);
  }
}
class ServerInvoke {
  final Future<Data> Function(List<int> buf) toData;
  final Future<List<int>> Function(Data data) formData;
  final Future<Data?> Function(Context ctx, Data data) invoke;
  ServerInvoke({required this.toData, required this.formData, required this.invoke});
}
abstract class ServerRouter {
  String get name;
  int get id;
  Map<String, ServerInvoke> get invokeNames;
  Map<int, ServerInvoke> get invokeIds;
}
`,
	"package:flutter/foundation.dart": `
class SynchronousFuture<T> extends Future<T> {
  external factory SynchronousFuture(T v);
}
`,
	"package:flutter/widgets.dart": `
export 'package:flutter/foundation.dart';
class Locale {
  final String languageCode;
  const Locale(this.languageCode);
}
class BuildContext {
  final Map<Type, dynamic> localizations;
  BuildContext(this.localizations);
}
abstract class LocalizationsDelegate<T> {
  const LocalizationsDelegate();
  bool isSupported(Locale locale);
  Future<T> load(Locale locale);
  bool shouldReload(covariant LocalizationsDelegate<T> old);
}
class Widget { const Widget(); }
class EdgeInsetsGeometry { const EdgeInsetsGeometry(); }
class EdgeInsets extends EdgeInsetsGeometry {
  const EdgeInsets.only({double left = 0.0, double top = 0.0, double right = 0.0, double bottom = 0.0});
}
class TextOverflow {
  const TextOverflow();
  static const TextOverflow ellipsis = TextOverflow();
}
class BoxFit {
  const BoxFit();
  static const BoxFit contain = BoxFit();
}
class Text extends Widget {
  final String data;
  final int? maxLines;
  final TextOverflow? overflow;
  const Text(this.data, {this.maxLines, this.overflow});
}
class SizedBox extends Widget { const SizedBox(); }
class Image extends Widget {
  final String src;
  final BoxFit? fit;
  Image.network(this.src, {this.fit});
}
class Localizations {
  static T? of<T>(BuildContext context, Type type) => context.localizations[type];
}
`,
	"package:flutter/material.dart": `
import 'package:flutter/widgets.dart';
export 'package:flutter/widgets.dart';
class InputDecoration {
  final String? labelText;
  const InputDecoration({this.labelText});
}
class Checkbox extends Widget {
  final bool? value;
  final bool tristate;
  final void Function(bool? val)? onChanged;
  const Checkbox({required this.value, this.tristate = false, required this.onChanged});
}
class DropdownMenuItem<T> extends Widget {
  final T? value;
  final Widget child;
  const DropdownMenuItem({this.value, required this.child});
}
class Tooltip extends Widget {
  final String? message;
  final Widget? child;
  const Tooltip({this.message, this.child});
}
`,
	"package:hbuf_flutter/hbuf_flutter.dart": `
import 'package:flutter/material.dart';
class FormBuild extends Widget {
  bool readOnly = true;
  Map<double, int> widthSizes = {};
  EdgeInsetsGeometry padding = const EdgeInsets.only();
  InputDecoration decoration = const InputDecoration();
  BuildContext? built;
  Widget build(BuildContext context) {
    built = context;
    return this;
  }
}
class TextFormBuild extends FormBuild {
  String? initialValue;
  int? maxLines;
  void Function(String? val)? onSaved;
  String? Function(String? val)? validator;
}
class FileFormBuild extends FormBuild {
  String? initialValue;
  List<String> extensions = [];
  void Function(String? val)? onSaved;
  String? Function(String? val)? validator;
}
class DatetimeFormBuild extends FormBuild {
  String? initialValue;
  void Function(String? val)? onSaved;
  String? Function(String? val)? validator;
}
class SwitchFormBuild extends FormBuild {
  bool? initialValue;
  void Function(bool? val)? onSaved;
  String? Function(bool? val)? validator;
}
class ClickFormBuild<T> extends FormBuild {
  T? initialValue;
  void Function(T? val)? onSaved;
  String? Function(T? val)? validator;
}
class MenuFormBuild<T> extends FormBuild {
  T? value;
  bool toNull = false;
  List<DropdownMenuItem<T>> items = <DropdownMenuItem<T>>[];
  void Function(T? val)? onSaved;
  String? Function(T? val)? validator;
}
class ImageFormImage {
  final String url;
  ImageFormImage(this.url);
}
class ImageFormBuild extends FormBuild {
  List<ImageFormImage> initialValue = [];
  int maxCount = 0;
  bool clip = true;
  double outWidth = 0.0;
  double outHeight = 0.0;
  List<String> extensions = [];
  void Function(List<ImageFormImage>? val)? onSaved;
  String? Function(List<ImageFormImage>? val)? validator;
}
class TablesCell extends Widget {
  final Widget? child;
  TablesCell({this.child});
}
class TablesRow<T> {
  final T data;
  TablesRow({required this.data});
}
class TablesColumn<T> {
  final int index;
  final TablesCell Function(BuildContext context) headerBuilder;
  final TablesCell Function(BuildContext context, int x, int y, T data) cellBuilder;
  TablesColumn({required this.index, required this.headerBuilder, required this.cellBuilder});
}
class TablesBuild<T> extends Widget {
  TablesRow<T> Function(BuildContext context, int y)? rowBuilder;
  int rowCount = 0;
  Map<String, TablesColumn<T>> columns = <String, TablesColumn<T>>{};
  Widget build(BuildContext context) => this;
}
`,
}

// world holds the libraries that every program can import.
type world struct {
	libs  map[string]*library
	core  *library
	names map[string]*class
	prog  *Program
}

func (w *world) class(name string) *class {
	c := w.names[name]
	if c == nil {
		panic("dart: no core class " + name)
	}
	return c
}

var (
	theWorld  *world
	worldOnce sync.Once
)

func newWorld(*Program) *world {
	worldOnce.Do(func() {
		w := &world{libs: map[string]*library{}, names: map[string]*class{}}
		theWorld = w
		p := &Program{files: map[string]string{}, libs: map[string]*library{}, world: w}
		w.prog = p
		var uris []string
		for u := range stubs {
			uris = append(uris, u)
		}
		sort.Strings(uris)
		for _, u := range uris {
			w.libs[u] = &library{uri: u, prog: p, stub: true, core: u == "dart:core"}
		}
		w.core = w.libs["dart:core"]
		for _, u := range uris {
			p.fill(w.libs[u], stubs[u])
		}
		for n, d := range w.core.decls {
			if c, ok := d.(*class); ok {
				w.names[n] = c
			}
		}
		for _, u := range uris {
			p.resolve(w.libs[u])
		}
		for _, u := range uris {
			for _, d := range w.libs[u].unit.decls {
				if cd, ok := d.(*classDecl); ok {
					for _, m := range cd.members {
						switch m := m.(type) {
						case *funcDecl:
							p.sigOf(m)
						case *varDecl:
							p.varType(m)
						}
					}
				}
				if f, ok := d.(*funcDecl); ok {
					p.sigOf(f)
				}
			}
		}
		for _, u := range uris {
			p.check(w.libs[u])
		}
		if len(p.errs) > 0 {
			panic(fmt.Sprintf("dart: stubs: %v", p.errs[0]))
		}
	})
	return theWorld
}
