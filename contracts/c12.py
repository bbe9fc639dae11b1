"""C12: clusters of index ranges"""
from contracts.lib import contract, lemma, implies, invariant
from sciencebeam_trainer_grobid_tools.annotation.simple_matching_annotator import (
    IndexRangeCluster, merge_related_clusters
)

CLASSES = {
    'Cluster': {'path': 'annotation.simple_matching_annotator:IndexRangeCluster', 'noalloc': True, 'value': True,
                'fields': {'index_ranges': 'list[tuple[int,int]]'}},
}


@contract('annotation.simple_matching_annotator', 'merge_index_ranges', 'C12', index_ranges='list[tuple[int,int]]')
def merge_ranges_spec(index_ranges):
    """from the smallest start to the largest end"""
    starts = [r[0] for r in index_ranges]
    ends = [r[1] for r in index_ranges]
    return (min(starts), max(ends))


@contract('annotation.simple_matching_annotator', 'sorted_index_ranges', 'C12', index_ranges='list[tuple[int,int]]')
def sorted_ranges_spec(index_ranges):
    return sorted(index_ranges)


@contract('annotation.simple_matching_annotator', 'IndexRangeCluster.gap_to', 'C12', self='Cluster',
          cluster='Cluster')
def gap_spec(self, cluster):
    """the distance between the end of one and the start of the other"""
    if self.index_ranges[-1][1] <= cluster.index_ranges[0][0]:
        return cluster.index_ranges[0][0] - self.index_ranges[-1][1]
    return self.index_ranges[0][0] - cluster.index_ranges[-1][1]


def size(cluster):
    return cluster.index_ranges[-1][1] - cluster.index_ranges[0][0]


@contract('annotation.simple_matching_annotator', 'IndexRangeCluster.should_merge', 'C12', self='Cluster',
          cluster='Cluster', opaque=True, returns='bool', may_raise='IndexError')
def should_merge_spec(self, cluster):
    """closer than the longer one of them is long, plus ten"""
    return gap_spec(self, cluster) <= max(size(self), size(cluster)) + 10


@contract('annotation.simple_matching_annotator', 'IndexRangeCluster.merge_with', 'C12', self='Cluster',
          cluster='Cluster')
def merge_with_spec(self, cluster):
    return IndexRangeCluster(self.index_ranges + cluster.index_ranges)


@contract('annotation.simple_matching_annotator', 'merge_related_clusters', 'C12', clusters='list[Cluster]')
def merge_related_spec(clusters):
    """neighbours that belong together are merged until there are none"""
    while True:
        result = [clusters[0]]
        again = False
        for cluster in clusters[1:]:
            if result[-1].should_merge(cluster):
                result[-1] = merge_with_spec(result[-1], cluster)
                again = True
            else:
                result.append(cluster)
        if not again:
            return result
        clusters = result


@contract('annotation.simple_matching_annotator', 'select_index_ranges', 'C12', index_ranges='list[tuple[int,int]]')
def select_spec(index_ranges):
    """the ranges of the longest cluster, and all others in order"""
    if len(index_ranges) < 2:
        return index_ranges, []
    clusters = merge_related_clusters([IndexRangeCluster([r]) for r in sorted(index_ranges)])
    by_length = sorted(clusters, key=size, reverse=True)
    rest = []
    for cluster in by_length[1:]:
        for r in cluster.index_ranges:
            rest.append(r)
    return by_length[0].index_ranges, sorted(rest)
