//! Mesh types of the harness: every element carries a unique tag as its payload, so that the
//! monitors can tell where each payload ended up.

use procedural_modelling::extensions::nalgebra::*;
use procedural_modelling::prelude::*;
use std::marker::PhantomData;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Pay(pub u64);

impl EdgePayload for Pay {
    fn allocate() -> Self {
        Pay(u64::MAX)
    }
    fn is_empty(&self) -> bool {
        false
    }
}
impl DefaultEdgePayload for Pay {}
impl FacePayload for Pay {
    fn allocate() -> Self {
        Pay(u64::MAX)
    }
}
impl DefaultFacePayload for Pay {}
impl VertexPayload for Pay {
    fn allocate() -> Self {
        Pay(u64::MAX)
    }
}
impl<T: MeshType> MeshPayload<T> for Pay {}

/// A purely topological mesh with arbitrary index types.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct TT<E: IndexType, V: IndexType, F: IndexType>(PhantomData<(E, V, F)>);

impl<E: IndexType, V: IndexType, F: IndexType> MeshType for TT<E, V, F> {
    type E = E;
    type V = V;
    type F = F;
    type EP = Pay;
    type VP = Pay;
    type FP = Pay;
    type MP = Pay;
    type Mesh = HalfEdgeMeshImpl<Self>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl<E: IndexType, V: IndexType, F: IndexType> HalfEdgeImplMeshType for TT<E, V, F> {}
impl<E: IndexType, V: IndexType, F: IndexType> MeshTypeHalfEdge for TT<E, V, F> {}

/// A vertex payload that carries a tag.
pub trait VTag: VertexPayload {
    fn mk(tag: u64) -> Self;
    fn tag(&self) -> u64;
    fn set_tag(&mut self, tag: u64);
}
impl VTag for Pay {
    fn mk(tag: u64) -> Self {
        Pay(tag)
    }
    fn tag(&self) -> u64 {
        self.0
    }
    fn set_tag(&mut self, tag: u64) {
        self.0 = tag;
    }
}
/// The position of the vertex with the given tag.
pub fn tag_pos(tag: u64) -> Vec3<f64> {
    let f = |k: u64| (vmon::mix(tag, k) >> 11) as f64 / (1u64 << 53) as f64 * 20.0 - 10.0;
    Vec3::new(f(1), f(2), f(3))
}
impl VTag for VertexPayloadPNU<f64, 3> {
    fn mk(tag: u64) -> Self {
        let mut r = <Self as HasPosition<3, Vec3<f64>>>::from_pos(tag_pos(tag));
        r.set_uv(Vec2::new(tag as f64, 0.25));
        r.set_normal(tag_pos(tag ^ 0xabcdef));
        r
    }
    fn tag(&self) -> u64 {
        self.uv().x as u64
    }
    fn set_tag(&mut self, tag: u64) {
        self.set_uv(Vec2::new(tag as f64, 0.25));
    }
}

/// All payloads of a mesh type are tags; vertices may also have a position.
pub trait TaggedG: HalfEdgeImplMeshType + MeshTypeHalfEdge + MeshType<EP = Pay, VP: VTag, FP = Pay, MP = Pay> {}
impl<T: HalfEdgeImplMeshType + MeshTypeHalfEdge + MeshType<EP = Pay, VP: VTag, FP = Pay, MP = Pay>> TaggedG for T {}

/// All payloads of a mesh type are nothing but tags.
pub trait Tagged: TaggedG + MeshType<VP = Pay> {}
impl<T: TaggedG + MeshType<VP = Pay>> Tagged for T {}

/// A mesh in space with tags and arbitrary index types.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct GT<E: IndexType, V: IndexType, F: IndexType>(PhantomData<(E, V, F)>);

impl<E: IndexType, V: IndexType, F: IndexType> MeshType for GT<E, V, F> {
    type E = E;
    type V = V;
    type F = F;
    type EP = Pay;
    type VP = VertexPayloadPNU<f64, 3>;
    type FP = Pay;
    type MP = Pay;
    type Mesh = HalfEdgeMeshImpl<Self>;
    type Face = HalfEdgeFaceImpl<Self>;
    type Edge = HalfEdgeImpl<Self>;
    type Vertex = HalfEdgeVertexImpl<Self>;
}
impl<E: IndexType, V: IndexType, F: IndexType> EuclideanMeshType<3> for GT<E, V, F> {
    type S = f64;
    type Vec = VecN<f64, 3>;
    type Vec2 = VecN<f64, 2>;
    type Trans = NdAffine<f64, 3>;
    type Rot = NdRotate<f64, 3>;
    type Poly = Polygon2d<f64>;
}
impl<E: IndexType, V: IndexType, F: IndexType> HalfEdgeImplMeshType for GT<E, V, F> {}
impl<E: IndexType, V: IndexType, F: IndexType> MeshTypeHalfEdge for GT<E, V, F> {}
impl<E: IndexType, V: IndexType, F: IndexType> MeshType3D for GT<E, V, F> {}
