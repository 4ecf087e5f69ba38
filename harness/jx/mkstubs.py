# writes stubs.txt: the stand-ins for the libraries that generated Java code uses (not available offline)
out=[]
def f(path, text): out.append("// FILE "+path+"\n"+text.strip()+"\n")
def anno(pkg,name,body="",target=None):
    f(pkg.replace('.','/')+'/'+name+'.java', f"package {pkg};\nimport java.lang.annotation.*;\n@Retention(RetentionPolicy.RUNTIME)\npublic @interface {name} {{ {body} }}")
A='com.fasterxml.jackson.annotation'; D='com.fasterxml.jackson.databind'; DA=D+'.annotation'; C='com.fasterxml.jackson.core'
for n in ('JsonValue','JsonIgnore'): anno(A,n)
anno(A,'JsonCreator')
anno(A,'JsonProperty','String value() default "";')
anno(A,'JsonIgnoreProperties','String[] value() default {};')
anno(A,'JsonInclude','''Include value() default Include.ALWAYS;
  enum Include { ALWAYS, NON_NULL, NON_EMPTY }
  class Value { public final Include value, content; Value(Include v, Include c) { value = v; content = c; }
    public static Value construct(Include v, Include c) { return new Value(v, c); } }''')
anno(DA,'JsonSerialize',f'Class<?> using() default Void.class; Class<?> contentUsing() default Void.class; Class<?> keyUsing() default Void.class;')
anno(DA,'JsonDeserialize',f'Class<?> using() default Void.class; Class<?> contentUsing() default Void.class; Class<?> keyUsing() default Void.class; Class<?> builder() default Void.class;')
anno(DA,'JsonPOJOBuilder','String withPrefix() default "with"; String buildMethodName() default "build";')
V='javax.validation.constraints'
anno(V,'NotNull'); anno(V,'Pattern','String regexp();'); anno(V,'Size','int min() default 0; int max() default Integer.MAX_VALUE;')
anno(V,'Min','long value();'); anno(V,'Max','long value();'); anno(V,'DecimalMin','String value();'); anno(V,'DecimalMax','String value();')
anno('javax.inject','Inject')
R='javax.ws.rs'
for m in ('GET','PUT','POST','DELETE','PATCH','HEAD','OPTIONS'): anno(R,m)
for n in ('Path','PathParam','QueryParam','HeaderParam','DefaultValue'): anno(R,n,'String value();')
anno(R,'Produces','String[] value();'); anno(R,'Consumes','String[] value();')
anno(R+'.ext','Provider')
for n in ('Data','AllArgsConstructor','Builder'): anno('lombok',n)
anno('lombok','NoArgsConstructor','boolean force() default false;')

f(C.replace('.','/')+'/JsonProcessingException.java',f'package {C};\npublic class JsonProcessingException extends java.io.IOException {{ public JsonProcessingException(String m) {{ super(m); }} }}')
f(C.replace('.','/')+'/JsonGenerator.java',f'''package {C};
public class JsonGenerator {{ public Object out; public boolean done;
  void put(Object o) {{ if (done) throw new IllegalStateException("two values"); done = true; out = o; }}
  public void writeString(String s) throws java.io.IOException {{ put(s); }}
  public void writeObject(Object o) throws java.io.IOException {{ put(verif.Mapper.toTree(o)); }} }}''')
f(C.replace('.','/')+'/JsonParser.java',f'''package {C};
public class JsonParser {{ public final Object in; public JsonParser(Object o) {{ in = o; }}
  public String getText() throws java.io.IOException {{ if (in instanceof java.util.Map) return "{{"; if (in instanceof java.util.List) return "["; return String.valueOf(in); }}
  public <T> T readValueAs(Class<T> c) throws java.io.IOException {{ return c.cast(verif.Mapper.fromTree(in, c)); }} }}''')
d=D.replace('.','/')
f(d+'/SerializerProvider.java',f'package {D};\npublic class SerializerProvider {{}}')
f(d+'/DeserializationContext.java',f'package {D};\npublic class DeserializationContext {{}}')
f(d+'/SerializationFeature.java',f'package {D};\npublic enum SerializationFeature {{ INDENT_OUTPUT, WRITE_DATES_AS_TIMESTAMPS }}')
f(d+'/DeserializationFeature.java',f'package {D};\npublic enum DeserializationFeature {{ FAIL_ON_UNKNOWN_PROPERTIES }}')
f(d+'/JsonSerializer.java',f'package {D};\nimport {C}.*;\npublic abstract class JsonSerializer<T> {{ public abstract void serialize(T v, JsonGenerator g, SerializerProvider p) throws java.io.IOException, JsonProcessingException; }}')
f(d+'/JsonDeserializer.java',f'package {D};\nimport {C}.*;\npublic abstract class JsonDeserializer<T> {{ public abstract T deserialize(JsonParser p, DeserializationContext c) throws java.io.IOException, JsonProcessingException; }}')
f(d+'/ObjectMapper.java',f'''package {D};
import com.fasterxml.jackson.annotation.JsonInclude;
public class ObjectMapper {{
  boolean strict = true; JsonInclude.Include content = JsonInclude.Include.ALWAYS;
  public ObjectMapper setDefaultPropertyInclusion(JsonInclude.Value v) {{ content = v.content; return this; }}
  public ObjectMapper configure(DeserializationFeature f, boolean on) {{ strict = on; return this; }}
  public ObjectReader readerFor(Class<?> c) {{ return new ObjectReader(c, strict); }}
  public ObjectWriter writerWithView(Class<?> c) {{ return new ObjectWriter(); }} }}''')
f(d+'/ObjectReader.java',f'''package {D};
public class ObjectReader {{ final Class<?> c; final boolean strict; ObjectReader(Class<?> c, boolean strict) {{ this.c = c; this.strict = strict; }}
  @SuppressWarnings("unchecked") public <T> T readValue(String s) throws java.io.IOException {{ return (T) verif.Mapper.read(s, c, strict); }} }}''')
f(d+'/ObjectWriter.java',f'''package {D};
public class ObjectWriter {{ boolean indent;
  public ObjectWriter with(SerializationFeature f) {{ indent = f == SerializationFeature.INDENT_OUTPUT; return this; }}
  public String writeValueAsString(Object o) throws java.io.IOException {{ String s = verif.J.print(verif.Mapper.toTree(o)); return indent ? " " + s : s; }} }}''')
f('javax/ws/rs/WebApplicationException.java','''package javax.ws.rs;
import javax.ws.rs.core.Response;
public class WebApplicationException extends RuntimeException { final Response r;
  public WebApplicationException(Response r) { this.r = r; } public WebApplicationException(int status) { this.r = Response.status(status).build(); }
  public Response getResponse() { return r; } }''')
f('javax/ws/rs/core/MediaType.java','package javax.ws.rs.core;\npublic class MediaType { public static final String APPLICATION_JSON = "application/json"; }')
f('javax/ws/rs/core/GenericType.java','''package javax.ws.rs.core;
import java.lang.reflect.*;
public class GenericType<T> { final Type t; protected GenericType() { t = ((ParameterizedType) getClass().getGenericSuperclass()).getActualTypeArguments()[0]; }
  public Type getType() { return t; } }''')
f('javax/ws/rs/core/Response.java','''package javax.ws.rs.core;
import java.util.*;
public class Response {
  public enum Status { OK }
  public int status; public Object entity; public Map<String, List<String>> headers = new TreeMap<>(String.CASE_INSENSITIVE_ORDER);
  public String wire; // what came over the wire
  public static ResponseBuilder status(int s) { ResponseBuilder b = new ResponseBuilder(); b.r.status = s; return b; }
  public int getStatus() { return status; }
  public String getHeaderString(String n) { List<String> l = headers.get(n); return l == null ? null : String.join(",", l); }
  Object read(Class<?> raw, java.lang.reflect.Type t) {
    if (raw == String.class) return wire == null ? "" : wire;
    if (wire == null || wire.isEmpty()) return null;
    try { return verif.Mapper.fromTree(verif.J.parse(wire), t); } catch (java.io.IOException e) { throw new IllegalStateException("ProcessingException: " + e.getMessage(), e); } }
  @SuppressWarnings("unchecked") public <T> T readEntity(Class<T> c) { return (T) read(c, c); }
  @SuppressWarnings("unchecked") public <T> T readEntity(GenericType<T> g) { return (T) read(null, g.getType()); }
  public static class ResponseBuilder { Response r = new Response();
    public ResponseBuilder entity(Object o) { r.entity = o; return this; }
    public ResponseBuilder header(String n, Object v) { if (v == null) r.headers.remove(n); else r.headers.computeIfAbsent(n, k -> new ArrayList<>()).add(v.toString()); return this; }
    public Response build() { return r; } } }''')
f('javax/ws/rs/core/UriBuilder.java','''package javax.ws.rs.core;
public class UriBuilder { String s; public static UriBuilder fromUri(String s) { UriBuilder b = new UriBuilder(); b.s = s; return b; } public java.net.URI build() { return java.net.URI.create(s); } }''')
f('javax/ws/rs/ext/ParamConverter.java','package javax.ws.rs.ext;\npublic interface ParamConverter<T> { T fromString(String s); String toString(T t); }')
f('javax/ws/rs/ext/ParamConverterProvider.java','package javax.ws.rs.ext;\npublic interface ParamConverterProvider { <T> ParamConverter<T> getConverter(Class<T> c, java.lang.reflect.Type t, java.lang.annotation.Annotation[] a); }')
f('javax/ws/rs/client/Client.java','package javax.ws.rs.client;\npublic class Client { public WebTarget target(String s) { return new WebTarget(s); } }')
f('javax/ws/rs/client/ClientBuilder.java','package javax.ws.rs.client;\npublic class ClientBuilder { public static Client newClient() { return new Client(); } }')
f('javax/ws/rs/client/Entity.java','''package javax.ws.rs.client;
public class Entity<T> { public final T entity; public final String type; Entity(T e, String t) { entity = e; type = t; }
  public static <T> Entity<T> entity(T e, String t) { return new Entity<T>(e, t); }
  public static <T> Entity<T> json(T e) { return new Entity<T>(e, "application/json"); }
  public static <T> Entity<T> text(T e) { return new Entity<T>(e, "text/plain"); } }''')
f('javax/ws/rs/client/WebTarget.java','''package javax.ws.rs.client;
import java.util.*;
public class WebTarget { final String base; final StringBuilder path = new StringBuilder(); final StringBuilder query = new StringBuilder();
  WebTarget(String s) { base = s; }
  public WebTarget path(String p) { String cur = base + path; if (!cur.endsWith("/") && !p.startsWith("/")) path.append("/"); else if (cur.endsWith("/") && p.startsWith("/")) p = p.substring(1); path.append(p); return this; }
  public WebTarget resolveTemplate(String n, Object v, boolean slash) { if (v == null) throw new NullPointerException(n);
    String s = path.toString().replace("{" + n + "}", verif.Net.encode(v.toString(), slash ? "" : "/")); path.setLength(0); path.append(s); return this; }
  public WebTarget queryParam(String n, Object... vs) { if (vs == null || vs.length == 1 && vs[0] == null) return this;
    for (Object v : vs) { if (v.toString().indexOf('{') >= 0 || v.toString().indexOf('%') >= 0) throw new IllegalArgumentException("template or percent in query value");
      query.append(query.length() == 0 ? "?" : "&").append(n).append("=").append(verif.Net.encode(v.toString(), "")); } return this; }
  public Invocation.Builder request(String... types) { if (path.indexOf("{") >= 0) throw new IllegalStateException("unresolved template in " + path); return new Invocation.Builder(base + path + query); } }''')
f('javax/ws/rs/client/Invocation.java','''package javax.ws.rs.client;
import java.util.*;
import javax.ws.rs.core.Response;
public class Invocation { public static class Builder { final String uri; final Map<String, String> headers = new TreeMap<>(String.CASE_INSENSITIVE_ORDER);
  Builder(String u) { uri = u; }
  public Builder header(String n, Object v) { if (v == null) headers.remove(n); else headers.put(n, v.toString()); return this; }
  public Response method(String m) { return method(m, null); }
  public Response method(String m, Entity<?> e) {
    if (e == null && m.equals("PUT") || e != null && (m.equals("GET") || m.equals("HEAD") || m.equals("DELETE"))) throw new IllegalStateException("entity and method " + m);
    String body = null;
    if (e != null) { if (e.entity == null) body = ""; else if (e.entity instanceof String) body = (String) e.entity; else try { body = verif.J.print(verif.Mapper.toTree(e.entity)); } catch (java.io.IOException x) { throw new IllegalStateException("ProcessingException: " + x.getMessage(), x); } }
    return verif.Net.send(m, uri, headers, e == null ? null : e.type, body); }
  public Response get() { return method("GET"); } public Response delete() { return method("DELETE"); }
  public Response put(Entity<?> e) { return method("PUT", e); } public Response post(Entity<?> e) { return method("POST", e); } } }''')
f('org/eclipse/jetty/server/Server.java','package org.eclipse.jetty.server;\npublic class Server { public Object config; public boolean started; public void start() throws Exception { started = true; } public void join() throws InterruptedException {} }')
f('org/glassfish/jersey/jetty/JettyHttpContainerFactory.java','''package org.glassfish.jersey.jetty;
public class JettyHttpContainerFactory { public static org.eclipse.jetty.server.Server createServer(java.net.URI u, org.glassfish.jersey.server.ResourceConfig c) { org.eclipse.jetty.server.Server s = new org.eclipse.jetty.server.Server(); s.config = c; return s; } }''')
f('org/glassfish/jersey/server/ResourceConfig.java','''package org.glassfish.jersey.server;
import java.util.*;
public class ResourceConfig { public final Class<?>[] classes; public final List<Object> registered = new ArrayList<>(); public ResourceConfig(Class<?>... c) { classes = c; }
  public ResourceConfig register(Object o) { registered.add(o); return this; } public ResourceConfig register(Class<?> o) { registered.add(o); return this; }
  public ResourceConfig registerInstances(Object... o) { registered.addAll(Arrays.asList(o)); return this; } }''')
f('org/glassfish/jersey/logging/LoggingFeature.java','''package org.glassfish.jersey.logging;
public class LoggingFeature { public static final String DEFAULT_LOGGER_NAME = "x"; public enum Verbosity { PAYLOAD_ANY } public LoggingFeature(java.util.logging.Logger l, java.util.logging.Level v, Verbosity x, Integer n) {} }''')
f('org/glassfish/jersey/jackson/JacksonFeature.java','package org.glassfish.jersey.jackson;\npublic class JacksonFeature {}')
f('org/glassfish/hk2/utilities/binding/AbstractBinder.java','''package org.glassfish.hk2.utilities.binding;
public abstract class AbstractBinder { public Class<?> impl, iface; protected abstract void configure(); public void run() { configure(); }
  public class B { public void to(Class<?> c) { iface = c; } } public B bind(Class<?> c) { impl = c; return new B(); } }''')
open('stubs.txt','w').write('\n'.join(out))
