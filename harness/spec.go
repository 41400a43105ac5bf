package main

import (
	"reflect"

	"github.com/qmuntal/gltf"
)

// The glTF 2.0 property tables, written from the specification and not from
// the struct tags of the library: Go field -> JSON name and presence rule.

type presence int

const (
	opt  presence = iota // zero/empty: may be left out (writing the default is equivalent)
	req                  // always written
	omit                 // zero: must not be written, the zero value is not legal JSON content
)

type fld struct {
	Go, JSON string
	P        presence
}

var common = []fld{{"Extensions", "extensions", opt}, {"Extras", "extras", opt}}
var named = append([]fld{{"Name", "name", opt}}, common...)

func w(base []fld, more ...fld) []fld { return append(append([]fld{}, base...), more...) }

var specTable = map[string][]fld{
	"Document": w(common,
		fld{"ExtensionsUsed", "extensionsUsed", opt}, fld{"ExtensionsRequired", "extensionsRequired", opt},
		fld{"Accessors", "accessors", opt}, fld{"Animations", "animations", opt}, fld{"Asset", "asset", req},
		fld{"Buffers", "buffers", opt}, fld{"BufferViews", "bufferViews", opt}, fld{"Cameras", "cameras", opt},
		fld{"Images", "images", opt}, fld{"Materials", "materials", opt}, fld{"Meshes", "meshes", opt},
		fld{"Nodes", "nodes", opt}, fld{"Samplers", "samplers", opt}, fld{"Scene", "scene", opt},
		fld{"Scenes", "scenes", opt}, fld{"Skins", "skins", opt}, fld{"Textures", "textures", opt}),
	"Asset": w(common, fld{"Copyright", "copyright", opt}, fld{"Generator", "generator", opt},
		fld{"Version", "version", req}, fld{"MinVersion", "minVersion", omit}),
	"Accessor": w(named, fld{"BufferView", "bufferView", opt}, fld{"ByteOffset", "byteOffset", opt},
		fld{"ComponentType", "componentType", req}, fld{"Normalized", "normalized", opt}, fld{"Count", "count", req},
		fld{"Type", "type", req}, fld{"Max", "max", opt}, fld{"Min", "min", opt}, fld{"Sparse", "sparse", opt}),
	"Sparse":        w(common, fld{"Count", "count", req}, fld{"Indices", "indices", req}, fld{"Values", "values", req}),
	"SparseIndices": w(common, fld{"BufferView", "bufferView", req}, fld{"ByteOffset", "byteOffset", opt}, fld{"ComponentType", "componentType", req}),
	"SparseValues":  w(common, fld{"BufferView", "bufferView", req}, fld{"ByteOffset", "byteOffset", opt}),
	"Buffer":        w(named, fld{"URI", "uri", omit}, fld{"ByteLength", "byteLength", req}),
	"BufferView": w(named, fld{"Buffer", "buffer", req}, fld{"ByteOffset", "byteOffset", opt}, fld{"ByteLength", "byteLength", req},
		fld{"ByteStride", "byteStride", omit}, fld{"Target", "target", omit}),
	"Scene": w(named, fld{"Nodes", "nodes", opt}),
	"Node": w(named, fld{"Camera", "camera", opt}, fld{"Children", "children", opt}, fld{"Skin", "skin", opt},
		fld{"Matrix", "matrix", opt}, fld{"Mesh", "mesh", opt}, fld{"Rotation", "rotation", opt}, fld{"Scale", "scale", opt},
		fld{"Translation", "translation", opt}, fld{"Weights", "weights", opt}),
	"Skin":         w(named, fld{"InverseBindMatrices", "inverseBindMatrices", opt}, fld{"Skeleton", "skeleton", opt}, fld{"Joints", "joints", opt}),
	"Camera":       w(named, fld{"Orthographic", "orthographic", opt}, fld{"Perspective", "perspective", opt}),
	"Orthographic": w(common, fld{"Xmag", "xmag", req}, fld{"Ymag", "ymag", req}, fld{"Zfar", "zfar", req}, fld{"Znear", "znear", req}),
	"Perspective":  w(common, fld{"AspectRatio", "aspectRatio", opt}, fld{"Yfov", "yfov", req}, fld{"Zfar", "zfar", opt}, fld{"Znear", "znear", req}),
	"Mesh":         w(named, fld{"Primitives", "primitives", opt}, fld{"Weights", "weights", opt}),
	"Primitive": w(common, fld{"Attributes", "attributes", req}, fld{"Indices", "indices", opt}, fld{"Material", "material", opt},
		fld{"Mode", "mode", opt}, fld{"Targets", "targets", opt}),
	"Material": w(named, fld{"PBRMetallicRoughness", "pbrMetallicRoughness", opt}, fld{"NormalTexture", "normalTexture", opt},
		fld{"OcclusionTexture", "occlusionTexture", opt}, fld{"EmissiveTexture", "emissiveTexture", opt},
		fld{"EmissiveFactor", "emissiveFactor", opt}, fld{"AlphaMode", "alphaMode", opt}, fld{"AlphaCutoff", "alphaCutoff", opt},
		fld{"DoubleSided", "doubleSided", opt}),
	"NormalTexture":    w(common, fld{"Index", "index", opt}, fld{"TexCoord", "texCoord", opt}, fld{"Scale", "scale", opt}),
	"OcclusionTexture": w(common, fld{"Index", "index", opt}, fld{"TexCoord", "texCoord", opt}, fld{"Strength", "strength", opt}),
	"PBRMetallicRoughness": w(common, fld{"BaseColorFactor", "baseColorFactor", opt}, fld{"BaseColorTexture", "baseColorTexture", opt},
		fld{"MetallicFactor", "metallicFactor", opt}, fld{"RoughnessFactor", "roughnessFactor", opt},
		fld{"MetallicRoughnessTexture", "metallicRoughnessTexture", opt}),
	"TextureInfo": w(common, fld{"Index", "index", req}, fld{"TexCoord", "texCoord", opt}),
	"Texture":     w(named, fld{"Sampler", "sampler", opt}, fld{"Source", "source", opt}),
	"Sampler": w(named, fld{"MagFilter", "magFilter", omit}, fld{"MinFilter", "minFilter", omit},
		fld{"WrapS", "wrapS", opt}, fld{"WrapT", "wrapT", opt}),
	"Image":                  w(named, fld{"URI", "uri", omit}, fld{"MimeType", "mimeType", omit}, fld{"BufferView", "bufferView", opt}),
	"Animation":              w(named, fld{"Channels", "channels", opt}, fld{"Samplers", "samplers", opt}),
	"AnimationSampler":       w(common, fld{"Input", "input", req}, fld{"Interpolation", "interpolation", opt}, fld{"Output", "output", req}),
	"AnimationChannel":       w(common, fld{"Sampler", "sampler", req}, fld{"Target", "target", req}),
	"AnimationChannelTarget": w(common, fld{"Node", "node", opt}, fld{"Path", "path", req}),
	// Extensions.
	"Light": {{"Type", "type", req}, {"Name", "name", opt}, {"Color", "color", opt}, {"Intensity", "intensity", opt}, {"Range", "range", opt}, {"Spot", "spot", opt}},
	"Spot":  {{"InnerConeAngle", "innerConeAngle", opt}, {"OuterConeAngle", "outerConeAngle", opt}},
	"PBRSpecularGlossiness": {{"DiffuseFactor", "diffuseFactor", opt}, {"DiffuseTexture", "diffuseTexture", opt}, {"SpecularFactor", "specularFactor", opt},
		{"GlossinessFactor", "glossinessFactor", opt}, {"SpecularGlossinessTexture", "specularGlossinessTexture", opt}},
	"TextureTranform": {{"Offset", "offset", opt}, {"Rotation", "rotation", opt}, {"Scale", "scale", opt}, {"TexCoord", "texCoord", opt}},
}

// nullWhenEmpty: required arrays that the encoder may write as null when the
// document leaves them empty (the document is then not valid glTF anyway).
var nullWhenEmpty = map[string]bool{"Skin.Joints": true, "Mesh.Primitives": true, "Animation.Channels": true, "Animation.Samplers": true, "Primitive.Attributes": true}

type code struct {
	Val  any // the Go constant
	Code any // number (float64) or string on the wire
	Name string
}

// Enumerations of glTF 2.0.
var enumCodes = map[string][]code{
	"ComponentType": {{gltf.ComponentByte, 5120.0, "BYTE"}, {gltf.ComponentUbyte, 5121.0, "UNSIGNED_BYTE"}, {gltf.ComponentShort, 5122.0, "SHORT"},
		{gltf.ComponentUshort, 5123.0, "UNSIGNED_SHORT"}, {gltf.ComponentUint, 5125.0, "UNSIGNED_INT"}, {gltf.ComponentFloat, 5126.0, "FLOAT"}},
	"AccessorType": {{gltf.AccessorScalar, "SCALAR", "SCALAR"}, {gltf.AccessorVec2, "VEC2", "VEC2"}, {gltf.AccessorVec3, "VEC3", "VEC3"}, {gltf.AccessorVec4, "VEC4", "VEC4"},
		{gltf.AccessorMat2, "MAT2", "MAT2"}, {gltf.AccessorMat3, "MAT3", "MAT3"}, {gltf.AccessorMat4, "MAT4", "MAT4"}},
	"PrimitiveMode": {{gltf.PrimitivePoints, 0.0, "POINTS"}, {gltf.PrimitiveLines, 1.0, "LINES"}, {gltf.PrimitiveLineLoop, 2.0, "LINE_LOOP"}, {gltf.PrimitiveLineStrip, 3.0, "LINE_STRIP"},
		{gltf.PrimitiveTriangles, 4.0, "TRIANGLES"}, {gltf.PrimitiveTriangleStrip, 5.0, "TRIANGLE_STRIP"}, {gltf.PrimitiveTriangleFan, 6.0, "TRIANGLE_FAN"}},
	"AlphaMode":     {{gltf.AlphaOpaque, "OPAQUE", "OPAQUE"}, {gltf.AlphaMask, "MASK", "MASK"}, {gltf.AlphaBlend, "BLEND", "BLEND"}},
	"MagFilter":     {{gltf.MagNearest, 9728.0, "NEAREST"}, {gltf.MagLinear, 9729.0, "LINEAR"}},
	"MinFilter":     {{gltf.MinNearest, 9728.0, "NEAREST"}, {gltf.MinLinear, 9729.0, "LINEAR"}, {gltf.MinNearestMipMapNearest, 9984.0, "NEAREST_MIPMAP_NEAREST"}, {gltf.MinLinearMipMapNearest, 9985.0, "LINEAR_MIPMAP_NEAREST"}, {gltf.MinNearestMipMapLinear, 9986.0, "NEAREST_MIPMAP_LINEAR"}, {gltf.MinLinearMipMapLinear, 9987.0, "LINEAR_MIPMAP_LINEAR"}},
	"WrappingMode":  {{gltf.WrapClampToEdge, 33071.0, "CLAMP_TO_EDGE"}, {gltf.WrapMirroredRepeat, 33648.0, "MIRRORED_REPEAT"}, {gltf.WrapRepeat, 10497.0, "REPEAT"}},
	"Interpolation": {{gltf.InterpolationLinear, "LINEAR", "LINEAR"}, {gltf.InterpolationStep, "STEP", "STEP"}, {gltf.InterpolationCubicSpline, "CUBICSPLINE", "CUBICSPLINE"}},
	"TRSProperty":   {{gltf.TRSTranslation, "translation", "translation"}, {gltf.TRSRotation, "rotation", "rotation"}, {gltf.TRSScale, "scale", "scale"}, {gltf.TRSWeights, "weights", "weights"}},
	"Target":        {{gltf.TargetArrayBuffer, 34962.0, "ARRAY_BUFFER"}, {gltf.TargetElementArrayBuffer, 34963.0, "ELEMENT_ARRAY_BUFFER"}},
}

// Enum values that mean "undefined" and are never written.
var enumNone = map[string]any{"MagFilter": gltf.MagUndefined, "MinFilter": gltf.MinUndefined, "Target": gltf.TargetNone}

// Defaults of glTF 2.0 for enumerations when the property is absent.
var enumDefault = map[string]any{
	"PrimitiveMode": gltf.PrimitiveTriangles, "AlphaMode": gltf.AlphaOpaque, "WrappingMode": gltf.WrapRepeat, "Interpolation": gltf.InterpolationLinear,
	"MagFilter": gltf.MagUndefined, "MinFilter": gltf.MinUndefined, "Target": gltf.TargetNone,
}

func isEnum(t reflect.Type) bool {
	_, ok := enumCodes[t.Name()]
	return ok && t.Kind() != reflect.String
}

func enumCode(v reflect.Value) (any, bool) {
	for _, c := range enumCodes[v.Type().Name()] {
		if v.Interface() == c.Val {
			return c.Code, true
		}
	}
	return nil, false
}

var (
	identity16 = [16]float64{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
	identityQ  = [4]float64{0, 0, 0, 1}
	ones2      = [2]float64{1, 1}
	ones3      = [3]float64{1, 1, 1}
	ones4      = [4]float64{1, 1, 1, 1}
)

// valueDefaults: value-typed fields whose all-zero value stands for unset.
var valueDefaults = map[string]any{
	"Node.Matrix": identity16, "Node.Rotation": identityQ, "Node.Scale": ones3, "TextureTranform.Scale": ones2, "Asset.Version": "2.0",
}

// ptrDefaults: pointer-typed fields whose nil value means the default.
var ptrDefaults = map[string]any{
	"Material.AlphaCutoff": 0.5, "NormalTexture.Scale": 1.0, "OcclusionTexture.Strength": 1.0,
	"PBRMetallicRoughness.BaseColorFactor": ones4, "PBRMetallicRoughness.MetallicFactor": 1.0, "PBRMetallicRoughness.RoughnessFactor": 1.0,
	"Light.Color": ones3, "Light.Intensity": 1.0, "Light.Range": inf, "Spot.OuterConeAngle": quarterPi,
	"PBRSpecularGlossiness.DiffuseFactor": ones4, "PBRSpecularGlossiness.SpecularFactor": ones3, "PBRSpecularGlossiness.GlossinessFactor": 1.0,
}
